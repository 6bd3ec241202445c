//go:build go1.23 && !verif_values

package serial

import "github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"

var p20values, p23values, p24values []kit.Sub
