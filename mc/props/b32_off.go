//go:build nob32

package props

import "github.com/fivebinaries/go-cardano-serialization/verifmc/core"

// the internal package is not there in its present form: bech32 is seen through addresses only
var bech32Subs []core.Sub
