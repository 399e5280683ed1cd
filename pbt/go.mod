module pbt

go 1.23

require (
	github.com/amarin/query v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/amarin/query => /repo
