module verif/pbt

go 1.25

require pgregory.net/rapid v1.3.0
