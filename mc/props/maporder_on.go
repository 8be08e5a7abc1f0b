//go:build maporder

package props

import _ "unsafe"

const ownsMapOrder = true

//go:linkname verifOn internal/runtime/maps.verifOn
var verifOn bool

//go:linkname verifChoices internal/runtime/maps.verifChoices
var verifChoices [256]uint8

//go:linkname verifN internal/runtime/maps.verifN
var verifN int

func choicesOn(c []byte) {
	for i := range verifChoices {
		verifChoices[i] = 0
	}
	copy(verifChoices[:], c)
	verifN = 0
	verifOn = true
}

func choicesOff() int {
	verifOn = false
	return verifN
}
