module vp

go 1.23

require (
	gotor v0.0.0
	pgregory.net/rapid v1.3.0
)

replace gotor => /repo/src
