prop = 'C09'
pkg = 'internal/storage'
edits = [('internal/storage/index.go', '\tif w.curBatch != nil {\n\t\terr := w.Write', '\tif w.curBatch != nil && w.batchCount%int(w.batchSize) != 0 {\n\t\terr := w.Write')]
needs = 'exactly batchSize entries pending when the storage is closed'
breaks = 'the last full batch is never written'
demo = 'package storage\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tv := NewRamWriteVolume()\n\tw := NewIndexRecordsWriteStorage(v, 5)\n\tfor i := uint64(1); i <= 5; i++ {\n\t\tif err := w.Put(i, i); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\tif err := w.Close(); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif v.Len() != 80 {\n\t\tt.Fatalf("%d bytes", v.Len())\n\t}\n}\n'
