//go:build go1.23 && !verif_formulas

package curve

import "github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"

var formulas []kit.Sub
