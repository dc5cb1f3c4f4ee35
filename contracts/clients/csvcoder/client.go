package csvcoder

import "reflect"

type zzExtractor func(row *Row, dst reflect.Value) error
