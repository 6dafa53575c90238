mod kit;
use kit::*;
fn main() {
    let u = url(url_options()).unwrap();
    check(verify(string_to_sign(&u, "GET", &["host:storage.googleapis.com"], "UNSIGNED-PAYLOAD").as_bytes(), &param(&u, "X-Goog-Signature")), "signature");
    let (k, log) = serve(|r, n| healthy(r, n, 3600));
    sign_blob_url(&k, "x").unwrap();
    assert_eq!(count(&log, "token"), 1);
    let f = form(css::HtmlFormData::builder().bucket("b").key("k").policy_document_signing_options(form_options(at(T0), at(T0+5)))).unwrap();
    println!("{}", policy(&f));
}
