//go:build go1.23 && verif_raw

package refcurve

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"

const RawAvailable = true

func SetRaw(p CP, c [4]FE) { curvePoints.VerifSetRaw(p, c) }

func TorsionAdd(p CP, i int) { curvePoints.VerifTorsionAdd(p, i) }
