//go:build go1.23 && verif_bigintfe

package field

import (
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
)

// The big.Int field element is the reference of the differential tests of the package.
type B = fe.VerifBigIntFE

var p03extra = []kit.Sub{{Name: "arith-bigint", Quick: 6000, Fn: p03arith[B, *B]}, {Name: "histories-bigint", Quick: 2000, Fn: p03history[B, *B]}}
var p04extra = []kit.Sub{{Name: "root-inverse-bigint", Quick: 2000, Fn: p04[B, *B]}, {Name: "exp-bigint", Quick: 1000, Fn: p04exp[B, *B]}}
var p06extra = []kit.Sub{{Name: "read-bigint", Quick: 6000, Fn: p06[B, *B]}, {Name: "set-bigint", Quick: 6000, Fn: p06set[B, *B]}}
var extraCodecs = []codec{feCodec[B, *B]("big.Int field element functions", true)}
