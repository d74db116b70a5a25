module verif/harness

go 1.15

require (
	github.com/mashmb/1pass/1pass-app v0.0.0
	github.com/mashmb/1pass/1pass-core v1.3.1
	github.com/mashmb/1pass/1pass-parse v1.3.1
	github.com/mashmb/1pass/1pass-term v1.3.1
	github.com/mashmb/1pass/1pass-up v1.1.2
	github.com/jroimartin/gocui v0.4.0
	github.com/nsf/termbox-go v1.1.1
	golang.org/x/crypto v0.0.0-20210421170649-83a5a9bb288b
	golang.org/x/term v0.0.0-20210422114643-f5beecf764ed
	github.com/spf13/cobra v1.1.3
)

replace (
	github.com/jroimartin/gocui => ./fake/gocui
	github.com/nsf/termbox-go => ./fake/termbox
	golang.org/x/term => ./fake/xterm
	github.com/mashmb/1pass/1pass-app => /repo/1pass-app
	github.com/mashmb/1pass/1pass-core => /repo/1pass-core
	github.com/mashmb/1pass/1pass-parse => /repo/1pass-parse
	github.com/mashmb/1pass/1pass-term => /repo/1pass-term
	github.com/mashmb/1pass/1pass-up => /repo/1pass-up
)
