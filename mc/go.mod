module verifmc

go 1.22

require github.com/TooManySugar/ll1parser v0.0.0

replace github.com/TooManySugar/ll1parser => /repo
