//go:build go1.23 && !verif_bigintfe

package field

import "github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"

var p03extra, p04extra, p06extra []kit.Sub
var extraCodecs []codec
