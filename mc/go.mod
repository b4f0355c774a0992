module verif.local/mc

go 1.27

require (
	github.com/edwingeng/hotswap v0.0.0
	github.com/edwingeng/slog v0.0.0-20221027170832-482f0dfb6247
	go.uber.org/atomic v1.10.0
)

require (
	github.com/pierrec/xxHash v0.1.5 // indirect
	go.uber.org/multierr v1.8.0 // indirect
	go.uber.org/zap v1.23.0 // indirect
	golang.org/x/mod v0.8.0 // indirect
)

replace github.com/edwingeng/hotswap => /repo
