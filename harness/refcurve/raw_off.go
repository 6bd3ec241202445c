//go:build go1.23 && !verif_raw

package refcurve

const RawAvailable = false

func SetRaw(p CP, c [4]FE) {}

func TorsionAdd(p CP, i int) {}
