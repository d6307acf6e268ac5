package gv

import (
	"os"
	"testing"
)

func TestWorker(t *testing.T) {
	if os.Getenv("GV_MODE") != "worker" {
		t.Skip()
	}
	workerLoop(t)
	os.Exit(0)
}

func TestShard(t *testing.T) {
	if os.Getenv("GV_MODE") != "shard" {
		t.Skip()
	}
	runShard(t)
}

func TestDrive(t *testing.T) {
	if os.Getenv("GV_MODE") != "drive" {
		t.Skip()
	}
	os.Exit(runDrive(t))
}

func TestReplay(t *testing.T) {
	if os.Getenv("GV_MODE") != "replay" {
		t.Skip()
	}
	os.Exit(runReplay(t))
}
