module golang.org/x/term

go 1.11

require golang.org/x/sys v0.0.0-20201119102817-f84b799fce68
