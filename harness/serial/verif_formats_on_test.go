//go:build go1.23 && verif_formats

package serial

import ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"

const ps_available = true

var serializers = ps.VerifSerializers
