prop = 'C13'
pkg = 'internal/storage'
edits = [('internal/storage/small.go', '\tif err := decoder.Decode(&underlyingStorage); err != nil {', '\tif err := decoder.Decode(&underlyingStorage); err != nil && err != io.EOF {')]
needs = 'an index file that is empty, as after a full disk'
breaks = 'an empty file is restored as an empty storage without an error'
demo = 'package storage\n\nimport (\n\t"bytes"\n\t"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n\tif err := NewSmallRecordsReadStorage().RestoreFrom(bytes.NewReader(nil)); err == nil {\n\t\tt.Fatal("an empty file was restored")\n\t}\n}\n'
