//go:build go1.23 && !verif_modulus

package field

import "github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"

var p02modulus []kit.Sub
