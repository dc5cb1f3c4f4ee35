package xmlinfer

import "github.com/jhump/protoreflect/desc/builder"

type zzPred func(string) bool

type zzType func() *builder.FieldType
