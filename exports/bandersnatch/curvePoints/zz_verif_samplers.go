//go:build verif_samplers

package curvePoints

import "math/rand"

// The samplers of points and of things that are not points that the package keeps for its tests.

// VerifSample samples a point of the type of p.
func VerifSample(p any, rnd *rand.Rand) {
	switch p := p.(type) {
	case *Point_axtw_full:
		p.sampleRandomUnsafe(rnd)
	case *Point_axtw_subgroup:
		p.sampleRandomUnsafe(rnd)
	case *Point_xtw_full:
		p.sampleRandomUnsafe(rnd)
	case *Point_xtw_subgroup:
		p.sampleRandomUnsafe(rnd)
	case *Point_efgh_full:
		p.sampleRandomUnsafe(rnd)
	case *Point_efgh_subgroup:
		p.sampleRandomUnsafe(rnd)
	default:
		panic("unknown point type")
	}
}

// VerifRerandomize changes the representation of p.
func VerifRerandomize(p any, rnd *rand.Rand) {
	switch p := p.(type) {
	case *Point_axtw_full:
		p.rerandomizeRepresentation(rnd)
	case *Point_axtw_subgroup:
		p.rerandomizeRepresentation(rnd)
	case *Point_xtw_full:
		p.rerandomizeRepresentation(rnd)
	case *Point_xtw_subgroup:
		p.rerandomizeRepresentation(rnd)
	case *Point_efgh_full:
		p.rerandomizeRepresentation(rnd)
	case *Point_efgh_subgroup:
		p.rerandomizeRepresentation(rnd)
	default:
		panic("unknown point type")
	}
}

// VerifSampleNaP makes p something that is not a point.
func VerifSampleNaP(p any, rnd *rand.Rand, index int) {
	switch p := p.(type) {
	case *Point_axtw_full:
		p.sampleNaP(rnd, index)
	case *Point_axtw_subgroup:
		p.sampleNaP(rnd, index)
	case *Point_xtw_full:
		p.sampleNaP(rnd, index)
	case *Point_xtw_subgroup:
		p.sampleNaP(rnd, index)
	case *Point_efgh_full:
		p.sampleNaP(rnd, index)
	case *Point_efgh_subgroup:
		p.sampleNaP(rnd, index)
	default:
		panic("unknown point type")
	}
}

func VerifWasInvalid(f func()) bool { return wasInvalidPointEncountered(f) }
func VerifGuard(expected any, singular bool, msg string, f any, args ...any) (bool, string) {
	return guardForInvalidPoints(expected, singular, msg, f, args...)
}
