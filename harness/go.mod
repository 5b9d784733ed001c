module verif.local/harness

go 1.23

require github.com/chzyer/readline v0.0.0

require golang.org/x/sys v0.0.0-20220310020820-b874c991c1a5 // indirect

replace github.com/chzyer/readline => /repo
