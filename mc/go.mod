module verifmc

go 1.23

require github.com/dufourgilles/emberlib v0.0.0

replace github.com/dufourgilles/emberlib => /repo
