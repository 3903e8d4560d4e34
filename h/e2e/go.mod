module verif/e2e

go 1.25

require (
	pgregory.net/rapid v1.3.0
	verif/pbt v0.0.0
)

replace verif/pbt => ../../pbt
