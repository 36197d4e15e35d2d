module verif/harness

go 1.23

require (
	github.com/roy2220/fsm v0.6.1
	github.com/roy2220/plainkv v0.0.0
)

require github.com/gogo/protobuf v1.3.1 // indirect

replace github.com/roy2220/plainkv => /repo
