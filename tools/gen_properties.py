#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe, "hook_needed": hook}})

URL = "return value of build_signed_url"
FORM = "return value of HtmlFormDataBuilder::build"

prop("C01", "A signed URL verifies for exactly the request that was described",
 "For every accepted combination of HTTP method, bucket, object, headers, query parameters, times and region with a usable service-account key, a V4 verifier that sees the returned URL presented with that method and those headers accepts X-Goog-Signature under the key's public half. The verifier recomputes the canonical request from the wire as Cloud Storage documents it: reserved characters percent-encoded, query sorted by encoded name, header names lower-cased and sorted, header values trimmed with inner whitespace runs collapsed and repeats joined by commas, and the payload UNSIGNED-PAYLOAD or, when that header is supplied, the value of x-goog-content-sha256. A host header supplied by the caller with the value storage.googleapis.com is not signed twice.",
 ["inputs"], "all methods x bucket/object/query/header strings x times x regions x RSA keys (2048-4096 bit)",
 "No existing test calls build_signed_url and looks at the URL; unit tests pin one canonical request with plain ASCII and never verify a URL signature.",
 ["src/signed_url.rs", "src/private/signed_url.rs", "src/private/canonical_request.rs", "src/private/string_to_sign.rs", "src/private/signing_key_inner.rs"],
 [("canonical request construction", "src/private/canonical_request.rs CanonicalRequest::new"), ("string to sign", "src/private/string_to_sign.rs"), ("RSA PKCS#1 v1.5 SHA-256 signing", "src/private/signing_key_inner.rs sign")], [URL])

prop("C02", "A signed URL addresses exactly the requested bucket and object",
 "Whatever characters the bucket and object names contain, a returned URL is https://storage.googleapis.com/<bucket>/<object> whose path percent-decodes to exactly those two names (a '/' separates object segments, everything else is data), has no fragment, carries no part of a name in its query, and is left unchanged by a standards-conforming URL parser. A name that cannot be addressed that way (the bucket, or a segment of the object name, is '.' or '..') is an error, never a URL for something else; every other non-empty bucket name and every other object name is accepted.",
 ["inputs"], "all Unicode bucket and object names, including '?', '#', '%', '\\\\', controls, spaces, dot segments and empty segments",
 "No test passes a name with a reserved character; names are unbounded strings and the failing ones ('?', '#', '..', '%41') are ordinary object names.",
 ["src/signed_url.rs", "src/private/signed_url.rs"],
 [("URL built from bucket and object", "src/signed_url.rs build_signed_url"), ("URL emitted", "src/private/signed_url.rs SignedUrl::new")], [URL])

prop("C03", "Every query parameter survives; each V4 parameter appears exactly once",
 "Decoding the query of a returned URL gives exactly the caller's query parameters, as a multiset of (name, value) strings with nothing altered, merged, split, dropped or added, plus exactly one each of X-Goog-Algorithm, X-Goog-Credential, X-Goog-Date, X-Goog-Expires, X-Goog-SignedHeaders and X-Goog-Signature. This holds for every Unicode name and value, including empty ones, repeats, and text containing '%', '+', '&', '=', '/', '#' or spaces.",
 ["inputs"], "all lists of (name, value) query parameters whose names are not one of the six V4 names",
 "The integration tests for query_parameters are empty TODOs; unit tests use two alphanumeric parameters.",
 ["src/signed_url.rs", "src/private/canonical_request.rs", "src/private/signed_url.rs"],
 [("query pairs appended", "src/signed_url.rs query_pairs_mut"), ("canonical query string reused as the URL's query", "src/private/canonical_request.rs canonical_query_string")], [URL])

prop("C04", "A signed URL is well-formed and in canonical form",
 "A returned URL consists only of RFC 3986 characters with every '%' followed by two upper-case hex digits; in the query every name and value has all bytes other than A-Z a-z 0-9 - _ . ~ percent-encoded from UTF-8, and the parameters before the signature are in ascending order of encoded name and then encoded value. X-Goog-Signature comes last and is the lower-case hex of a signature exactly as long as the RSA modulus.",
 ["inputs"], "all accepted inputs",
 "Tests inspect one ASCII canonical query; spaces, '%', non-ASCII text and names that are prefixes of one another never occur.",
 ["src/private/canonical_request.rs", "src/private/signed_url.rs"],
 [("percent encoding", "src/private/canonical_request.rs"), ("sorting", "src/private/canonical_request.rs canonical_query_string"), ("hex encoding", "src/private/signed_url.rs hex_encode")], [URL])

prop("C05", "SignedHeaders lists exactly host and the supplied headers",
 "X-Goog-SignedHeaders is the ';'-joined, lower-cased, sorted, duplicate-free list of 'host' and every supplied header name, and nothing else. Signatures are unchanged by the letter case of header names, by the relative order of differently named headers, and by leading, trailing or repeated inner whitespace in values, and changed by any other change to a header's name or value or to the order of two different values of the same header.",
 ["inputs"], "all lists of RFC 7230 header names with visible-ASCII/space/tab values, with repeats",
 "test_build_signed_url_options_headers is an empty TODO; only one fixed header list is ever canonicalised.",
 ["src/signed_url.rs", "src/private/signed_url.rs", "src/private/canonical_request.rs"],
 [("signed header list in the query", "src/private/signed_url.rs add_signed_url_required_query_string_parameters"), ("signed header list and canonical headers in the canonical request", "src/private/canonical_request.rs")], [URL])

prop("C06", "A signed URL's validity window never exceeds what was asked",
 "X-Goog-Date is the requested start (now, if none was given) in UTC truncated to the second, X-Goog-Expires is a plain decimal between 0 and 604800, and date + expires is never later than the requested expiry and less than two seconds before it. A request whose expiry is before its start, or 604801 seconds or more after it, or whose start is before 1970 or after 9999-12-31T23:59:59Z is an error; every expiry from the start up to exactly seven days after it is accepted.",
 ["inputs"], "all (start, expiry) pairs at nanosecond resolution, including boundaries, leap days and sub-second parts; implicit start with a controlled clock",
 "Unit tests check Expiration::try_from at four constants; no test computes a window from two times.",
 ["src/signed_url.rs", "src/private/expiration.rs", "src/private/active_datetime.rs", "src/private/utils/unix_timestamp.rs"],
 [("duration and truncation", "src/signed_url.rs build_signed_url"), ("range check", "src/private/expiration.rs"), ("date formatting", "src/private/utils/unix_timestamp.rs")], [URL])

prop("C07", "Credential, date and algorithm are mutually consistent everywhere",
 "In both signed URLs and signed forms the credential is <authorizer>/<YYYYMMDD>/<region>/storage/goog4_request, where the authorizer is the key's e-mail unaltered, YYYYMMDD is the UTC day of the accompanying YYYYMMDDTHHMMSSZ date, and the region is the given one unaltered or 'auto' when none was given; the algorithm is GOOG4-RSA-SHA256. The day and the date agree even when the clock moves between any two reads of it, and both denote the given start instant (proleptic Gregorian, zero-padded).",
 ["inputs", "schedules"], "all start instants 1970-9999, e-mails and region strings; clock readings that straddle midnight when no start is given",
 "Unit tests format one date; nothing checks that the scope's day and the date come from the same instant or that unusual e-mails or regions survive.",
 ["src/private/credential_scope.rs", "src/private/date.rs", "src/private/active_datetime.rs", "src/private/location.rs", "src/signed_url.rs", "src/html_form_data.rs", "src/private/utils/unix_timestamp.rs"],
 [("credential scope", "src/private/credential_scope.rs"), ("single reading of the clock", "src/signed_url.rs, src/html_form_data.rs accessible_at.unwrap_or_else(SystemTime::now)")], [URL, FORM])

prop("C08", "Two different requests never share a URL signature",
 "With one key, two accepted URL requests get the same signature only if they agree on method, bucket, object, query parameter multiset, header set (names case-insensitive, values after whitespace normalisation and comma-joining), start second, lifetime in seconds, region and e-mail; and requests that agree on all of these get identical URLs. In particular moving text across the boundary between two fields, or swapping a character for its percent-encoded spelling, changes the signature.",
 ["inputs"], "pairs of requests that differ by one field, by a boundary shift between adjacent fields, or by an encoding-level spelling",
 "Needs pairs of inputs: no test compares two requests.",
 ["src/private/canonical_request.rs", "src/private/string_to_sign.rs", "src/signed_url.rs"],
 [("unambiguous encoding of every component into the string to sign", "src/private/canonical_request.rs, src/private/string_to_sign.rs")], [URL])

prop("C09", "Form data contains exactly the fields that were set",
 "The form consists of exactly the fields that were set, each once with the value most recently given and numbers in plain decimal, in the documented field order, followed by every x-goog-meta-<name> in the order added (repeats kept); the order of setter calls does not matter otherwise. The policy, x-goog-algorithm, x-goog-credential, x-goog-date and x-goog-signature fields are present if and only if signing options were given.",
 ["inputs", "histories"], "all sequences of builder calls with arbitrary strings and numbers",
 "Tests build three fixed forms in one setter order and never set a field twice.",
 ["src/html_form_data.rs"],
 [("field assembly", "src/html_form_data.rs build"), ("setters", "src/html_form_data.rs HtmlFormDataBuilder")], [FORM])

prop("C10", "The policy document pins every field of the form and nothing else",
 "The decoded policy is a JSON object with exactly 'conditions' and 'expiration'; its conditions are, as a multiset, one [\"eq\", \"$<field>\", <value>] for each form field other than policy, x-goog-signature and Content-Length, with the very value the form carries, plus [\"content-length-range\", n, n] exactly when Content-Length is n. Every string survives JSON encoding unaltered, and expiration is the requested instant truncated to the second as YYYY-MM-DDTHH:MM:SSZ in UTC.",
 ["inputs"], "all subsets of fields x arbitrary Unicode values x all u64 lengths x expirations up to 9999",
 "One fixed policy is compared byte for byte; an omitted or wrong condition in any other subset of fields would pass.",
 ["src/html_form_data.rs", "src/private/policy_document.rs", "src/private/policy_document/condition.rs", "src/private/policy_document/field.rs", "src/private/policy_document/expiration.rs"],
 [("conditions built alongside fields", "src/html_form_data.rs build_policy_and_x_goog_signature"), ("policy serialisation", "src/private/policy_document/condition.rs")], [FORM])

prop("C11", "The policy field is signed by the signing key",
 "The policy field is standard padded base64, and x-goog-signature is the lower-case hex of an RSA PKCS#1 v1.5 SHA-256 signature over exactly the bytes of the policy field that verifies under the service-account key's public half. Different policies never share a signature under one key.",
 ["inputs"], "all signed forms x RSA keys of 2048, 3072 and 4096 bits",
 "One signature is pinned for one input and one 2048-bit key.",
 ["src/html_form_data.rs", "src/private/signing_key_inner.rs", "src/private/signed_url.rs"],
 [("signing", "src/private/signing_key_inner.rs sign"), ("hex", "src/private/signed_url.rs hex_encode")], [FORM])

prop("C12", "Form building succeeds exactly when the form is complete and signable",
 "Building a form fails if the key is missing or an x-goog-meta name is empty, and, when signing options are given, also if the bucket is missing, the expiration is not strictly after the start, either instant is outside 1970-01-01..9999-12-31T23:59:59Z, or the signing key cannot produce the signature (HMAC key, service-account key with signBlob, bound token without signBlob, malformed private key). In every other case it succeeds, and it never returns a form with only part of the signing fields.",
 ["inputs", "configurations"], "all subsets of builder fields x signing options x times at nanosecond resolution",
 "Tests cover two of the rejections with one input each, and none of the time boundaries.",
 ["src/html_form_data.rs", "src/private/utils/unix_timestamp.rs", "src/private/signing_key_inner.rs"],
 [("validation", "src/html_form_data.rs build, build_policy_and_x_goog_signature")], [FORM])

prop("C13", "URL signing rejects invalid methods, headers and keys, and only those",
 "build_signed_url fails for a method other than exactly DELETE, GET, HEAD, POST or PUT, for a header name that is not an RFC 7230 token, for a header value containing anything but visible ASCII, space and tab, and for a key that cannot sign (malformed or non-RSA private key, HMAC key, service-account key with signBlob, bound token without signBlob). With valid method, headers, key, times and names it succeeds whatever the query parameters, region and e-mail are.",
 ["inputs", "configurations"], "method strings near the five verbs; header names and values over all bytes representable in a string; damaged private keys",
 "No test gives build_signed_url an invalid argument.",
 ["src/signed_url.rs", "src/private/http_verb.rs", "src/private/canonical_request.rs", "src/private/signing_key_inner.rs"],
 [("method whitelist", "src/private/http_verb.rs"), ("header validation", "src/signed_url.rs, src/private/canonical_request.rs"), ("key parsing", "src/private/signing_key_inner.rs")], [URL])

prop("C14", "No input makes the library panic",
 "Every call of the public API with any argument values whatsoever returns a value or an error and never panics: oversized names, parameters, headers, e-mails and header lists, extreme times, arbitrary private-key text and JSON, unsupported key kinds or signing modes, any metadata-host setting, and any response of the metadata server or signBlob service. After an error, the same key and its clones remain usable.",
 ["inputs", "configurations", "fault_sequences"], "adversarial argument values in every position, lengths around 2^16, numbers around 2^63 and 2^64, all key kinds x signing modes",
 "Panics sit behind specific sizes and configurations (todo!, expect) that no test touches.",
 ["src/signed_url.rs", "src/private/signed_url.rs", "src/private/signing_key_inner.rs", "src/private/bound_token.rs", "src/html_form_data.rs", "src/signing_key.rs"],
 [("errors instead of todo!/expect", "src/private/signing_key_inner.rs, src/private/signed_url.rs, src/private/bound_token.rs")], [URL, FORM, "SigningKey constructors"])

prop("C15", "Service-account JSON is loaded faithfully or rejected",
 "A service-account key is loaded from JSON text exactly when the text is a JSON object whose client_email and private_key members are strings, whatever other members, order, whitespace or string escapes it has; the loaded key signs as exactly that e-mail with exactly that private key, and PEM text that differs only in line endings or surrounding text is the same key. Loading from a path gives the same result as loading the file's contents, and an unreadable, missing or non-UTF-8 file is an error.",
 ["inputs"], "generated JSON documents (valid, near-valid, malformed) and files",
 "The only test passes an empty string and ignores the result.",
 ["src/signing_key.rs", "src/private/signing_key_inner.rs"],
 [("JSON parsing", "src/signing_key.rs service_account_from_str"), ("file reading", "src/signing_key.rs service_account_from_path")], ["SigningKey::service_account_from_str", "SigningKey::service_account_from_path", URL, FORM])

prop("C16", "A bound token is reused only while more than 30 seconds of life remain",
 "Over any history of signing calls through a bound-token key and its clones, no metadata request is made while the last token obtained has more than 30 seconds of its announced lifetime left, and no signBlob call is made with a token other than the last one obtained. A token with 30 seconds or less left at the start of a call is replaced before that call signs.",
 ["histories", "inputs"], "sequences of URL/form signings by the key and clones interleaved with clock advances and server-chosen lifetimes, on a virtual clock with boundary values 29/30/31 s",
 "No test makes two calls on one key, and lifetimes need a controllable clock.",
 ["src/private/bound_token.rs", "src/private/signing_key_inner.rs"],
 [("token cache with 30 s margin", "src/private/bound_token.rs get_email_and_token")], ["requests received by the metadata server and the signBlob service"],
 state=[("cache", "last e-mail, token and its expiry, shared by clones", "src/private/bound_token.rs BoundToken.cache")],
 hook="signBlob endpoint redirection (cfg vp_hooks)")

prop("C17", "Metadata and signBlob faults are errors and leave nothing behind",
 "If an e-mail, token or signBlob request made by a call fails (connection lost or cut short, non-success status, malformed or incomplete body, token type other than Bearer, invalid base64), that call returns an error and no URL or form. Nothing from a failed token fetch is ever used or cached: the next call that needs a token asks the metadata server again, and once the services answer properly calls succeed again; a failed signBlob does not discard a still valid token.",
 ["fault_sequences", "histories"], "all sequences of faults over the three endpoints interleaved with healthy answers, clock advances and abandoned calls",
 "One test checks one status code on the first request; recovery and partial failure (e-mail succeeded, token failed) are never exercised.",
 ["src/private/bound_token.rs", "src/private/signing_key_inner.rs"],
 [("status and body checks", "src/private/bound_token.rs"), ("cache written only after full success", "src/private/bound_token.rs get_email_and_token")], [URL, FORM, "requests received by the services"],
 state=[("cache", "must be unchanged by a failed fetch", "src/private/bound_token.rs BoundToken.cache")],
 hook="signBlob endpoint redirection (cfg vp_hooks)")

prop("C18", "Bound-token signatures are made for the right message and identity",
 "When signing through signBlob, every metadata request carries Metadata-Flavor: Google, the service account named in the signBlob request and in the credential is the one the metadata server reported, the request carries the current access token as a Bearer token, and its payload is the base64 of exactly the string to sign (URLs) or the policy field (forms). The returned signature bytes appear unaltered as lower-case hex, so the URL or form verifies whenever the service signed what it was sent.",
 ["inputs"], "all accepted URL and form inputs x e-mails x tokens x signature byte strings",
 "The signBlob endpoint is hard-wired to the internet, so no test reaches it.",
 ["src/private/bound_token.rs", "src/private/signing_key_inner.rs", "src/private/signed_url.rs", "src/html_form_data.rs"],
 [("signBlob request", "src/private/bound_token.rs sign")], ["requests received by the services", URL, FORM],
 hook="signBlob endpoint redirection (cfg vp_hooks)")

prop("C19", "Concurrent use of one key is safe and fetches the token once",
 "When any number of signing calls run concurrently on one bound-token key and its clones, at most one metadata fetch is in progress at a time and a single successful fetch serves all calls while its token is valid; every call returns the result for its own arguments, also when other calls are cancelled midway or fail. Separately created keys never share tokens, and concurrent calls with a service-account key return exactly what the same calls return one at a time.",
 ["schedules", "fault_sequences"], "numbers of concurrent calls x start offsets x server latencies x cancellations x thread counts",
 "No test makes two overlapping calls.",
 ["src/private/bound_token.rs", "src/private/signing_key_inner.rs"],
 [("async mutex held across the fetch", "src/private/bound_token.rs get_email_and_token")], ["requests received by the services", URL, FORM],
 state=[("cache", "shared by clones, guarded by an async mutex", "src/private/bound_token.rs")],
 hook="signBlob endpoint redirection (cfg vp_hooks)")

prop("C20", "Results depend only on the arguments; omitted options mean their defaults",
 "Signing with a service-account key is a function of the arguments alone: repeating a call, using a clone of the options or key, or changing the clock (when a start is given), the time zone, the environment or the thread gives an identical result. Leaving the region out is the same as giving 'auto', and leaving the start out is the same as giving the current time, for URLs and forms alike.",
 ["inputs", "configurations"], "all accepted inputs x clock readings x TZ settings x repetition",
 "Needs pairs of runs under different environments; tests run one call in one environment.",
 ["src/signed_url.rs", "src/html_form_data.rs", "src/private/utils/unix_timestamp.rs"],
 [("defaults", "src/signed_url.rs, src/html_form_data.rs"), ("UTC formatting", "src/private/utils/unix_timestamp.rs")], [URL, FORM])

prop("C21", "Private keys, HMAC secrets and access tokens never appear in results",
 "No returned URL, form field or error text (its display and debug forms and those of all its sources) contains material from the service-account private key, the HMAC secret or an access token (the access_token member of a success answer of the metadata server), whatever made the call succeed or fail; nor is any of it printed to standard output or error, or shown by the Debug or Display form of a signing key, an options value or a form builder, should these types have one. Only the signBlob request itself carries the access token, and only in its Authorization header.",
 ["inputs", "fault_sequences"], "successful and failing calls of every kind with damaged keys, damaged JSON and faulty services",
 "A leak shows only on particular failures, and no test looks for secrets in error text.",
 ["src/private/signing_key_inner.rs", "src/signing_key.rs", "src/private/bound_token.rs", "src/html_form_data.rs", "src/signed_url.rs"],
 [("error types that carry no key material", "src/private/signing_key_inner.rs Error, src/private/bound_token.rs BoundTokenError")], [URL, FORM, "error Display/Debug"],
 hook="signBlob endpoint redirection (cfg vp_hooks)")

prop("C22", "Policy documents parse and serialise as inverses, rejecting invalid conditions",
 "Parsing a policy document accepts exactly the documented conditions: [\"eq\"|\"starts-with\", \"$field\", string], {field: string} as another spelling of eq, and [\"content-length-range\", min, max] with unsigned 64-bit integers, over the documented field names and non-empty x-goog-meta-* names, with Content-Length allowed only in a range and expiration in RFC 3339. Serialising a parsed document gives the array spelling with every field, value, bound and the order kept and the expiration in UTC, and parsing that again gives an equal document.",
 ["inputs"], "generated policy documents, valid and with single defects",
 "Tests parse a dozen literals; values, extra elements and mixed spellings are unbounded.",
 ["src/private/policy_document.rs", "src/private/policy_document/condition.rs", "src/private/policy_document/field.rs", "src/private/policy_document/expiration.rs", "src/private/policy_document/value.rs"],
 [("Deserialize/Serialize impls", "src/private/policy_document/condition.rs"), ("field names", "src/private/policy_document/field.rs")], ["policy document codec"],
 hook="policy codec exposed (cfg vp_hooks)")

prop("C23", "Local signing is offline; bound tokens contact only their two services",
 "Creating any signing key, signing with a service-account key, and every call that fails for such a key or an HMAC key is done offline: no host name is looked up, no connection made, no file opened (other than the key file a path names) and no program started. A bound-token call contacts only the metadata server (metadata.google.internal, or the host[:port] that GCE_METADATA_HOST named when the key was created; plain HTTP, port 80 unless given) and, over TLS, iamcredentials.googleapis.com for signBlob, to which it sends exactly one request per successful call.",
 ["inputs", "histories", "configurations"], "all accepted and rejected local calls; metadata host settings x histories of bound-token calls",
 "Tests run with a network stack whose use they do not observe; the default metadata host and the signBlob host are never reached by a test.",
 ["src/private/bound_token.rs", "src/private/signing_key_inner.rs", "src/signing_key.rs"],
 [("metadata base URL fixed in new()", "src/private/bound_token.rs BoundToken::new"), ("signBlob URL", "src/private/bound_token.rs sign"), ("local RSA signature", "src/private/signing_key_inner.rs sign")],
 ["name lookups, sockets, connections, opened files", "requests received by the services"],
 hook="signBlob endpoint redirection (cfg vp_hooks)")

prop("C24", "A call's cost is proportional to the size of its arguments",
 "Whatever its arguments, every local operation of the library - building a signed URL or a signed or unsigned form with a service-account key, loading a key from JSON text, and the failures of all of these including the text of their errors - takes CPU time and memory that grow at most linearly with the size of the arguments: in an optimised build at most 50 ms plus 0.6 microseconds per byte and 10 microseconds per element of a list (header, query parameter, metadata field, setter call), and at most 1 MiB plus 64 bytes for every byte and 1 KiB for every element of a list at its peak. No number, order, equality, letter case, nesting or repetition of names, values, segments, blank characters, PEM blocks or JSON members makes a call quadratic, exhausts the stack or loops.",
 ["inputs"], "arguments up to a megabyte: one large text or one long list in every place of the API, with equal, ascending, descending, mixed, repeating and case-varied names",
 "Tests use inputs of a few dozen bytes and measure nothing; a quadratic step is invisible below thousands of elements and needs a particular shape to be reached.",
 ["src/signed_url.rs", "src/html_form_data.rs", "src/signing_key.rs", "src/private/canonical_request.rs", "src/private/signed_url.rs", "src/private/policy_document.rs", "src/private/signing_key_inner.rs"],
 [("sorting and joining of headers and query", "src/private/canonical_request.rs"), ("fields and conditions collected", "src/html_form_data.rs"), ("key JSON and PEM parsing", "src/signing_key.rs, src/private/signing_key_inner.rs")],
 ["CPU time of the calling thread", "bytes allocated, live and at the peak"])

prop("C25", "Calls leave nothing behind",
 "A process that signs for ever does not grow: after a call has returned, failed or been dropped, what it used is released. However many calls are made, with whatever differs from one to the next (object, query, header, region, time, e-mail, key), succeeding or failing, with a service-account key or a bound-token key whose services answer, fail or are slow, and however often key JSON is loaded from text or a file, the memory, open files, threads and background tasks of the process stay bounded by what the keys that are still alive need; a bound-token key keeps one token and one pool of connections however many calls it has served, and once its last clone is dropped no task, connection or memory of it remains.",
 ["histories", "inputs", "fault_sequences"], "histories of up to thousands of calls with generated variation, answers of the services, and drop points",
 "A leak is only visible over many calls; a test makes one and the process ends.",
 ["src/private/bound_token.rs", "src/private/signing_key_inner.rs", "src/signing_key.rs", "src/signed_url.rs", "src/html_form_data.rs"],
 [("token cache and HTTP client of a bound-token key", "src/private/bound_token.rs"), ("key clones", "src/signing_key.rs"), ("key file read", "src/signing_key.rs")],
 ["live heap bytes", "open files and threads of the process", "alive tasks of the runtime"], hook="signBlob endpoint redirection (cfg vp_hooks)")

prop("C26", "A call waits only for the services it needs",
 "A signing call waits for nothing but its own requests and, when its key has no good token, the one fetch of a token that the calls with that key share. While some service does not answer, calls with a service-account key, calls that cannot succeed whatever a service says (an HMAC key, a service-account key with signBlob), and calls with a bound-token key whose own services answer still return; the thread that polls a waiting call is not blocked; the signBlob requests of a key are all sent, however many are unanswered; and one key's silent metadata server does not hold up another key. A call that is dropped while it waits, for its turn or for an answer, holds nobody up: when the services answer again, every call that is left returns its own result.",
 ["schedules", "histories", "fault_sequences"], "concurrent calls of several keys x which of their services is silent x which waiting calls are dropped",
 "It takes a service that is silent while other calls are made, and each test makes one call and gets its answers at once.",
 ["src/private/bound_token.rs", "src/private/signing_key_inner.rs", "src/signed_url.rs", "src/html_form_data.rs"],
 [("lock held for the fetch only", "src/private/bound_token.rs get_email_and_token"), ("signBlob sent outside the lock", "src/private/bound_token.rs sign")],
 ["requests received by the services while others are unanswered", "completion of calls"], hook="signBlob endpoint redirection (cfg vp_hooks)")

prop("C27", "A key works on any runtime and thread, whatever became of others",
 "A bound-token key belongs to no runtime and no thread. It may be made inside or outside a runtime, and its calls may run on any runtime (one-threaded, multi-threaded, in a LocalSet, or on a plain executor of a thread that has entered a runtime) and any thread, of which several may use the key at once or one after the other. Whatever became of the runtimes that used the key before or use it at the same time, which may have finished, been shut down or been dropped while their calls waited for an e-mail, a token or a signature, each call on a runtime that goes on returns its own result when the services answer; and the key's token is shared by all of them: it is fetched when none is good, once, and not because the runtime or thread is another one. (Connections that the services keep open while one runtime ends and another makes calls at the same time are not covered: the HTTP client drives a connection on the runtime that opened it.)",
 ["schedules", "histories", "fault_sequences"], "rounds of runtimes of each kind at the same time x which of them end early x which service is silent then x kept connections x token lifetimes",
 "It takes several runtimes in one process, some of which end in the middle of a call; each test makes one call on a runtime of its own with a key of its own.",
 ["src/private/bound_token.rs", "src/private/signing_key_inner.rs", "src/signing_key.rs"],
 [("token cache and lock", "src/private/bound_token.rs get_email_and_token"), ("HTTP client of a bound-token key", "src/private/bound_token.rs"), ("key constructors", "src/signing_key.rs bound_token")],
 ["results of the calls of each runtime", "requests received by the services", "end of each runtime"], hook="signBlob endpoint redirection (cfg vp_hooks)")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p, s); assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
