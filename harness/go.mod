module verif/harness

go 1.22

require github.com/zyedidia/gpeg v0.0.0

replace github.com/zyedidia/gpeg => /repo
