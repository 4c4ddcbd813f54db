//go:build verifsched && !race

package props

const raceDetector = false
