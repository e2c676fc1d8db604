package core

import (
	"io/fs"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
)

func (v *VRoot) objByID(id string) *VObj {
	for _, o := range v.Objs {
		if o.ID == id {
			return o
		}
	}
	return nil
}

func openOS(r *Run, dir string) (fs.FS, error) { return osfsrw.NewFS(dir, r.Log) }
