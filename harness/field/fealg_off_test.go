//go:build go1.23 && !verif_fealg

package field

import "github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"

var p02alg, p04alg []kit.Sub
