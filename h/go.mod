module verif/h

go 1.26.0

require (
	github.com/btcsuite/btcd v0.20.1-beta
	github.com/ericlagergren/decimal v0.0.0-00010101000000-000000000000
	github.com/ndau/ndaumath v0.0.0
	github.com/pkg/errors v0.8.1
	github.com/sigurn/crc16 v0.0.0-20211026045750-20ab5afb07e3
	github.com/tinylib/msgp v1.1.0
	golang.org/x/crypto v0.58.0
	pgregory.net/rapid v1.3.0
)

require github.com/philhofer/fwd v1.0.0 // indirect

replace github.com/ndau/ndaumath => /repo

replace github.com/ericlagergren/decimal => ../shim/decimal
