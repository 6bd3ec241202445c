//go:build go1.23 && !verif_forget

package internals

func forget() {} // the counters of earlier cases stay; their ids differ

const forgets = false
