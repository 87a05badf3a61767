module verif/harness

go 1.22.0

require github.com/dpeckett/archivefs v0.0.0

replace github.com/dpeckett/archivefs => /repo
