module vharness

go 1.26

require (
	github.com/savaki/kafka v0.0.0
	vsim v0.0.0
)

replace (
	github.com/savaki/kafka => ../../repo
	vsim => ../sim
)
