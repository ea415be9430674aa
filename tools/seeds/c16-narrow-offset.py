prop = 'C16'
pkg = 'internal/java'
edits = [('internal/java/heap.go', '\t_, err := reader.Seek(int64(offset), io.SeekStart)', '\t_, err := reader.Seek(int64(uint16(offset)), io.SeekStart)')]
needs = 'a field more than 65535 bytes into the instance'
breaks = 'the value is read from another field'
demo = 'package java\n\nimport (\n\t"testing"\n\n\t"github.com/danielleontiev/neojhat/internal/core"\n)\n\nfunc TestDemo(t *testing.T) {\n\tc := Class{Name: "Big"}\n\tfor i := 0; i < 9000; i++ {\n\t\tc.InstanceFields = append(c.InstanceFields, InstanceField{Name: "pad", Type: core.Long})\n\t}\n\tc.InstanceFields = append(c.InstanceFields, InstanceField{Name: "last", Type: core.Byte})\n\tb := make([]byte, 72001)\n\tb[72000] = 42\n\to := NormalObject{identifierSize: 8, Class: c, Bytes: b}\n\tv, err := o.GetFieldValueByName("last")\n\tif err != nil || v.Value.Value != int8(42) {\n\t\tt.Fatal(v, err)\n\t}\n}\n'
