module verif/harness

go 1.25

require github.com/dufourgilles/emberlib v0.0.0

replace github.com/dufourgilles/emberlib => /repo
