//go:build go1.23 && !verif_digits

package exp

import "github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"

var p27extra []kit.Sub
