module verif/auto

go 1.25

require (
	github.com/apparentlymart/go-textseg/autoversion v0.0.0
	github.com/apparentlymart/go-textseg/v15 v15.0.0
	github.com/apparentlymart/go-textseg/v17 v17.0.0
	pgregory.net/rapid v1.3.0
	verif/pbt v0.0.0
)

replace (
	github.com/apparentlymart/go-textseg/autoversion => /repo/autoversion
	github.com/apparentlymart/go-textseg/v17 => /repo
	verif/pbt => ../../pbt
)
