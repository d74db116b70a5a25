module github.com/jroimartin/gocui

go 1.15

require github.com/nsf/termbox-go v1.1.1
