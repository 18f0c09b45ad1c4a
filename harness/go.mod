module verif/harness

go 1.23

require (
	github.com/cloudprivacylabs/lpg/v2 v2.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/emirpasic/gods v1.18.1 // indirect

replace github.com/cloudprivacylabs/lpg/v2 => /repo
