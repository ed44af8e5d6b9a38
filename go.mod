module verif

go 1.27.3

require (
	github.com/go-ini/ini v0.0.0
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)

replace github.com/go-ini/ini => /repo
