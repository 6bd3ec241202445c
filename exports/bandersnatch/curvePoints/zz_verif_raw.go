//go:build verif_raw

package curvePoints

// VerifSetRaw sets the internal coordinates of a point: x,y,t or x,y,t,z or e,f,g,h.
func VerifSetRaw(p any, c [4]FieldElement) {
	switch p := p.(type) {
	case *Point_axtw_full:
		p.x, p.y, p.t = c[0], c[1], c[2]
	case *Point_axtw_subgroup:
		p.x, p.y, p.t = c[0], c[1], c[2]
	case *Point_xtw_full:
		p.x, p.y, p.t, p.z = c[0], c[1], c[2], c[3]
	case *Point_xtw_subgroup:
		p.x, p.y, p.t, p.z = c[0], c[1], c[2], c[3]
	case *Point_efgh_full:
		p.e, p.f, p.g, p.h = c[0], c[1], c[2], c[3]
	case *Point_efgh_subgroup:
		p.e, p.f, p.g, p.h = c[0], c[1], c[2], c[3]
	default:
		panic("unknown point type")
	}
}

// VerifTorsionAdd adds A (1), E1 (2) or E2 (3), in place.
func VerifTorsionAdd(p any, i int) {
	q := p.(torsionAdder)
	switch i {
	case 1:
		q.torsionAddA()
	case 2:
		q.torsionAddE1()
	case 3:
		q.torsionAddE2()
	}
}
