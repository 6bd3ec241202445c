//go:build go1.23 && verif_bigintfe

package serial

import fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"

func init() {
	more = func(v []*Int) (l []any) {
		for _, x := range v[:3] {
			z := new(fe.VerifBigIntFE)
			z.SetBigInt(x)
			l = append(l, z)
		}
		return
	}
}
