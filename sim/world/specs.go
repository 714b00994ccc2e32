package main

var specs = map[string]*propSpec{}

func spec(id string, quick int, probes []string, rule string, mix ...mixPart) {
	specs[id] = &propSpec{ID: id, Mix: mix, Quick: quick, Probes: probes, Rule: rule}
}

func init() {
	pipe := "random logs, certificates, configuration, fetch/commit schedule and the faults of the flavour"
	spec("C01", 400, []string{"coverage-published"}, pipe,
		mixPart{"base", 2}, mixPart{"tiny", 1}, mixPart{"crash", 3}, mixPart{"disk", 3}, mixPart{"cache", 2}, mixPart{"wipe", 3}, mixPart{"net", 1}, mixPart{"mix", 3})
	spec("C02", 400, []string{"coverage-published"}, pipe,
		mixPart{"base", 2}, mixPart{"tiny", 1}, mixPart{"crash", 3}, mixPart{"disk", 4}, mixPart{"cache", 2}, mixPart{"net", 1}, mixPart{"mix", 3})
	spec("C03", 400, []string{"heldback", "final-commit"}, pipe,
		mixPart{"base", 3}, mixPart{"early", 4}, mixPart{"tiny", 1}, mixPart{"crash", 2}, mixPart{"disk", 2}, mixPart{"cache", 2}, mixPart{"net", 1}, mixPart{"mix", 1})
	spec("C04", 400, []string{"state-saved"}, pipe,
		mixPart{"base", 3}, mixPart{"tiny", 2}, mixPart{"crash", 2}, mixPart{"net", 3}, mixPart{"cache", 3}, mixPart{"stop", 2}, mixPart{"stopcache", 4}, mixPart{"mix", 1})
	spec("C05", 400, []string{"tampered"}, pipe, mixPart{"tamper", 1})
	spec("C06", 400, []string{"recovered", "recovered-by-itself"}, pipe,
		mixPart{"base", 2}, mixPart{"tiny", 2}, mixPart{"net", 6}, mixPart{"cache", 2}, mixPart{"stop", 2}, mixPart{"mix", 1})
	spec("C07", 400, []string{"clean-stop", "oneshot-done"}, pipe,
		mixPart{"base", 2}, mixPart{"tiny", 2}, mixPart{"net", 2}, mixPart{"stop", 6}, mixPart{"stopcache", 1}, mixPart{"cache", 1}, mixPart{"tamper", 1}, mixPart{"enroll", 1}, mixPart{"disk", 1})
	spec("C08", 400, []string{"recovered"}, pipe, mixPart{"enroll", 6}, mixPart{"base", 1})
	spec("C09", 400, []string{"commit-ok"}, pipe,
		mixPart{"base", 2}, mixPart{"lock", 5}, mixPart{"crash", 4}, mixPart{"cache", 3}, mixPart{"wipe", 2}, mixPart{"disk", 1})
	spec("C10", 400, []string{"restore", "commit-refused-epoch"}, pipe,
		mixPart{"wipe", 6}, mixPart{"crash", 2}, mixPart{"cache", 2}, mixPart{"expiry", 1}, mixPart{"mix", 1})
	spec("C11", 400, []string{"commit-failed"}, pipe,
		mixPart{"crash", 5}, mixPart{"disk", 4}, mixPart{"cache", 2}, mixPart{"mix", 1})
	spec("C12", 400, []string{"bin-expired"}, pipe, mixPart{"expiry", 6}, mixPart{"base", 2}, mixPart{"disk", 1})
	spec("C13", 400, []string{"known-checked"}, pipe,
		mixPart{"base", 3}, mixPart{"expiry", 3}, mixPart{"disk", 4}, mixPart{"crash", 2}, mixPart{"tiny", 1})
	spec("C18", 400, []string{"health-200", "health-500", "health-503"}, pipe, mixPart{"health", 8}, mixPart{"base", 1})

	crl := "random CA certificates, CRLs and their versions over time, editions of the CCADB report, runs of aggregate-crls and the faults of the flavour"
	spec("C14", 1200, []string{"crl-list", "crl-withheld"}, crl,
		mixPart{"crl", 2}, mixPart{"crlnet", 2}, mixPart{"crldisk", 3}, mixPart{"crlcrash", 1}, mixPart{"crlterm", 2}, mixPart{"crlmix", 2})
	spec("C15", 1200, []string{"crl-fetched", "crl-fallback"}, crl,
		mixPart{"crl", 2}, mixPart{"crlnet", 3}, mixPart{"crldisk", 2}, mixPart{"crlcrash", 3}, mixPart{"crlterm", 1}, mixPart{"crlmix", 2})
	spec("C16", 1200, []string{"crl-audit", "crl-fallback"}, crl,
		mixPart{"crl", 3}, mixPart{"crlnet", 3}, mixPart{"crldisk", 1}, mixPart{"crlcrash", 1}, mixPart{"crlmix", 1})
	spec("C17", 1200, []string{"crl-report", "crl-failed"}, crl,
		mixPart{"crl", 2}, mixPart{"crlnet", 3}, mixPart{"crldisk", 3}, mixPart{"crlcrash", 2}, mixPart{"crlterm", 2}, mixPart{"crlmix", 2})
	spec("C19", 1200, []string{"crl-failed", "crl-fallback", "crl-term"}, crl,
		mixPart{"crl", 1}, mixPart{"crlnet", 4}, mixPart{"crldisk", 1}, mixPart{"crlcrash", 2}, mixPart{"crlterm", 3}, mixPart{"crlmix", 2})
}
