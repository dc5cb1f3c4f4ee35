package codegen

// zzNewImports is a new table without options.
func zzNewImports() *Imports { return NewImports() }
