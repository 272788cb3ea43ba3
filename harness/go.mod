module veltyverif

go 1.17

require (
	github.com/viant/parsly v0.0.0-20220309230857-3a8c3e9c4030
	github.com/viant/velty v0.0.0
)

require (
	github.com/viant/xreflect v0.0.0-20230303201326-f50afb0feb0d // indirect
	github.com/viant/xunsafe v0.9.1-0.20230927172001-c46ad2c48d68 // indirect
)

replace github.com/viant/velty => /repo
