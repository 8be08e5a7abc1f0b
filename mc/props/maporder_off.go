//go:build !maporder

package props

const ownsMapOrder = false

func choicesOn([]byte) {}
func choicesOff() int  { return 0 }
