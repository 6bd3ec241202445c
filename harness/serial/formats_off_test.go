//go:build go1.23 && !verif_formats

package serial

const ps_available = false

func serializers() []Ser { return nil }
