package gocui

// VerifTouch, when set, is told of every change of the views. This file and the calls of
// verifTouch are all that differs from gocui v0.4.0.
var VerifTouch func()

func verifTouch() {
	if VerifTouch != nil {
		VerifTouch()
	}
}
