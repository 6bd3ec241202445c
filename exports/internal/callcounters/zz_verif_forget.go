//go:build go1.23 && verif_forget

package callcounters

// VerifForget forgets all call counters.
func VerifForget() { callCounters = make(map[Id]*CallCounter) }
