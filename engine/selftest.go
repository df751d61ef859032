package main

func runSelftest(repo, verif string, verbose bool, only string) int { return 0 }
