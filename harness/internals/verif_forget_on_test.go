//go:build go1.23 && verif_forget

package internals

import "github.com/GottfriedHerold/Bandersnatch/internal/callcounters"

func forget() { callcounters.VerifForget() }

const forgets = true
