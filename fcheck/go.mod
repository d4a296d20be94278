module fcheck

go 1.26.0

require (
	github.com/abichinger/govaluate v1.5.1-0.20220503123756-74b96f998566
	github.com/go-ini/ini v1.66.4
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)
