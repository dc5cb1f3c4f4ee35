package recordinfer

// The candidate types of a column.
type zzInferrer func(string) (columnType, error)
