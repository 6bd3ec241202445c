//go:build go1.23 && !verif_samplers

package curve

import "github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"

var p18samplers, p19samplers []kit.Sub
