package command

// Configurations that cannot be used are rejected, others are not.
func VP_C05_Validity() {
	dir := vpScratch()
	defer vpRemove(dir)
	dsn, stop := vpServe()
	defer stop()
	cfg := vpConfig(dir, dsn)
	ok := true
	switch vpChoose(8) {
	case 0: // nothing
	case 1:
		cfg.WorkingDirectory.Set(dir + "/missing")
		ok = false
	case 2:
		cfg.DatabaseDSN.Set("")
		ok = false
	case 3:
		cfg.DatabaseDSN.Set("host=127.0.0.1 port=1 user=u sslmode=disable connect_timeout=2")
		ok = false
	case 4: // the tag
		tag := vpPrintable(vpChoose(vpBound("characters of a tag", 4, 5)))
		for i := 0; i < len(tag); i++ {
			c := tag[i]
			word := vpOr(vpAnd(c >= 'a', c <= 'z'), vpAnd(c >= 'A', c <= 'Z'), c == '_')
			if i > 0 {
				word = vpOr(word, vpAnd(c >= '0', c <= '9'))
			}
			ok = vpAnd(ok, word)
		}
		cfg.FilterColumnKeyTag.Set(tag)
	case 5: // the separator
		sep := string(vpBytes(vpChoose(3)))
		ok = len(sep) <= 1
		cfg.FilterColumnKeySeparator.Set(sep)
	case 6:
		rx := vpChoose(6)
		cfg.InputFileRegexps.Set([]string{"a.*", "(", "[a", "a)", `\`, "^$"}[rx])
		ok = rx == 0 || rx == 5
		if vpBool() {
			cfg.InputFileRegexps.Set("b")
		}
	case 7:
		cfg.WorkingDirectory.Set(dir + "/../" + dir[1:])
		if dir != vpRoot {
			cfg.WorkingDirectory.Set(dir + "/.")
		}
	}
	cmd, err := New(cfg)
	vpAssert((err == nil) == ok, "a configuration that cannot be used is accepted, or another one rejected")
	if err == nil {
		vpAssert(cmd.WorkingDirectory.Value == dir, "another working directory is used")
		vpReach("accepted")
	} else {
		vpReach("rejected")
	}
}
