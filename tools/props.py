CORE = 'crates/core/src/'
DIF = 'crates/dif-exch/src/'
prop('C01', 'One-or-many values neither lose, reorder nor invent elements',
     'A value that may be one item or a list of items behaves as a sequence: adding an item makes it a list holding every earlier item in order followed by the new one, '
     'and length, emptiness and the one/many tests agree with that sequence. The text-or-object value reports exactly the form it holds.',
     ['inputs', 'histories'], 'every element type, every starting value (one item, empty list, list of any length) and every sequence of additions',
     'the unit tests add to a value twice at most; the law quantifies over lists of every length and over element types',
     [CORE + 'lib.rs'], [('Quota::{add,len,is_empty,is_one,is_many}', CORE + 'lib.rs'), ('Kind::{is_string,is_object}', CORE + 'lib.rs')],
     'postconditions on every method for all values; element equality of Clone assumed; the JSON form (item alone or array) only checked bounded on the compiled code')
prop('C02', 'Generated codes, tokens, nonces and PINs have their full, fixed shape',
     'Every generated identifier (authorization code, issuer state, nonce, notification id, request token, access token, transaction id) is the base64url text of 32 characters '
     'each drawn separately from the whole 73-character safe alphabet, and a PIN is exactly 6 decimal digits each drawn separately. No position is constant, repeated from another draw or drawn from a smaller alphabet.',
     ['inputs'], 'every outcome of the random source, for every generator',
     'no test inspects generated values; sampling cannot show that every position always uses the whole alphabet',
     [CORE + 'gen.rs'], [('auth_code, issuer_state, nonce, notification_id, uri_token, token, transaction_id, tx_code', CORE + 'gen.rs')],
     'proved for every result of the random draws (each draw any value in its range); fastrand and base64ct assumed; cryptographic unpredictability of fastrand is not claimed')
prop('C03', 'PKCE verifiers are valid and the challenge is S256 of the verifier',
     'A generated PKCE code verifier always has 43 to 128 characters, all of them RFC 7636 unreserved characters (letters, digits and - . _ ~). The challenge of any verifier text is the unpadded base64url of the SHA-256 of its bytes.',
     ['inputs'], 'every random outcome and every verifier text',
     'no test covers it; boundary lengths and the rarest characters are hit by few random draws',
     [CORE + 'pkce.rs'], [('code_verifier, code_challenge', CORE + 'pkce.rs')],
     'proved for all draws and all texts; SHA-256, base64 and fastrand are assumed library contracts')
prop('C04', 'URL-encoding a record yields exactly its parameters, unambiguously',
     'Encoding a record or text-keyed map as URL parameters gives one key=value pair per member in order, joined by &, where text is written plainly, other values as their JSON form, and in keys and values every byte outside letters, digits and - . _ ~ is percent-encoded. '
     'No content of a member can therefore end a parameter, start another or change nesting, whatever its nesting depth. (Floating point numbers, maps with non-text keys and top-level values other than records and maps are outside.)',
     ['inputs', 'programs'], 'every serializable record or map: any number of members, any nesting of lists, tuples, options, enums, maps and records, any text',
     'the unit tests encode two fixed records; separators, quotes, percent signs and mixed nesting in arbitrary positions are not sampled',
     [CORE + 'urlencode/ser.rs', CORE + 'urlencode.rs'], [('Serializer: all serde Serializer/Serialize* trait methods', CORE + 'urlencode/ser.rs'), ('to_string', CORE + 'urlencode/ser.rs')],
     'contracts on every serializer method (start, step after any prefix, end), composed by induction over the serde data model; percent_encoding and the serde protocol assumed')
prop('C05', 'Decoding URL parameters inverts encoding and injects nothing',
     'Decoding a parameter text splits it first and decodes each key and value exactly once, so that encoding a record of text, list and record members and decoding the text gives the record back. '
     'Members arise only from parameters present in the text, a repeated parameter or a parameter without = is an error, and no text makes decoding panic.',
     ['inputs'], 'every parameter text and every record whose members are text, enum names, lists, maps or records (text that itself reads as a JSON array or object is outside)',
     'the unit tests decode two fixed strings; encoded separators inside values, repeated parameters and malformed text are not sampled',
     [CORE + 'urlencode.rs'], [('from_str', CORE + 'urlencode.rs')],
     'proved for every input text and any number of parameters; serde_json::from_value, split and percent decoding are assumed library contracts')
prop('D01', 'Presentation constraints hold only if every field is satisfied',
     'Evaluating the constraints of a presentation definition against a credential answers yes exactly when every field is satisfied: paths are tried in order, a path counts by the first value it selects, and the first path whose value passes the field\'s filter (or any value without a filter) satisfies the field. '
     'An optional field is excused only if none of its paths selects a value. A malformed path or filter that evaluation reaches, or claims that cannot be serialised while there are fields, is an error, never a yes; evaluation never panics.',
     ['inputs'], 'every constraint (any number of fields, paths, filters, optional flags) and every credential document',
     'the unit tests try five fixed constraint/credential pairs, each with one field',
     [DIF + 'matcher.rs', DIF + 'lib.rs'], [('Constraints::satisfied', DIF + 'matcher.rs'), ('Field::matched', DIF + 'matcher.rs')],
     'proved for any number of fields and paths, with serde_json_path, regex and chrono as uninterpreted functions of their inputs; the filter semantics are those of D02')
prop('D02', 'Filters compare the claim itself, exactly, by const, pattern or format',
     'A const filter accepts text equal to it, a number or boolean whose JSON text equals it, or an array containing it as text, and never null or an object. '
     'A pattern filter searches the text of the claim (text as is, otherwise its JSON form) and an invalid pattern is an error; a format filter accepts text that is a valid calendar date (date) or RFC 3339 timestamp (date-time), rejects any other claim, and any other format name is an error.',
     ['inputs'], 'every filter and every JSON claim value',
     'the unit tests sample one claim per filter kind; nulls, numbers, booleans, quotes and wrong types are not sampled',
     [DIF + 'matcher.rs'], [('FilterValue::matched', DIF + 'matcher.rs'), ('match_const, match_pattern, match_format', DIF + 'matcher.rs')],
     'proved for every filter and claim; regex matching, date parsing and number formatting are uninterpreted library functions')
MAC = 'crates/macros/src/'
prop('M01', 'Request macros build exactly the request written, or refuse to compile',
     'The request macros (create_offer_request, authorization_request, token_request, credential_request) turn a JSON-like description into the typed request holding exactly the values written: every listed member once and in order, nested claims kept, an absent optional member absent, and the documented defaults (no transaction code, offer by value). '
     'A description that misses a required member, has a member the request does not have, or uses an unsupported grant type, format, proof type or shape is a compile error.',
     ['inputs', 'programs'], 'every description: any subset of members, any texts, names and expressions as values, any number of configuration ids, grant types, authorization details and (nested) claims. `@context`, a repeated key and objects where a plain value belongs are outside',
     'the macro tests expand one or two fixed descriptions per macro; optional members, several details, nested claims and malformed descriptions are not sampled',
     [MAC + x for x in ('create_offer.rs', 'authorization.rs', 'token.rs', 'credential.rs', 'parse.rs')],
     [('create_offer::request', MAC + 'create_offer.rs'), ('authorization::request, claims', MAC + 'authorization.rs'), ('token::request', MAC + 'token.rs'), ('credential::request', MAC + 'credential.rs'), ('Json::{get,expect,option,check_consumed}, Value::to_tokens', MAC + 'parse.rs')],
     'proved for every input tree and any number of members (recursive claims by contract); quote! and the meaning of the generated expressions are modelled, conversions assumed to keep the value; reading the tokens into the tree (syn) only checked bounded on the compiled macros')
OPI = 'crates/openid/src/issuer.rs'
ISS = 'vercre-issuer/src/'
STUBBED = 'the bounded part runs the real crates with stand-ins for the dependencies missing offline (tracing, uuid, did and infosec crates, ...)'
prop('O01', 'Requested claims pass only if all are supported and none mandatory is missing',
     'A claim set requested for a credential configuration is accepted exactly when every claim in it, at every depth, is one the configuration supports (a nested set only where the configuration has a set) and every claim the configuration marks mandatory is present, at every depth, also inside sets the request leaves out. '
     'A configuration that lists no claims accepts any claim set.',
     ['inputs'], 'every configuration and every requested claim tree of any width and depth',
     'the tests request two fixed claim sets; nested sets, absent sets with mandatory members and mixed shapes are not sampled',
     [OPI], [('CredentialConfiguration::{verify_claims,claims_supported,claims_required}', OPI), ('Format::claims', OPI)],
     'proved for all claim trees, the recursive checks by their own contract (induction over the finite tree); ' + STUBBED)
prop('O02', 'A format resolves only to a supported configuration of that very format and type',
     'Looking up the configuration for a requested credential format yields the identifier of a configuration the issuer supports whose format kind and credential type (type list, doctype or vct) equal the requested ones, and fails only if there is none. '
     'Two authorized credentials count as the same exactly when both name the same configuration or both have the same format kind and type; the claims they list do not matter.',
     ['inputs'], 'every issuer metadata (any number of configurations) and every format',
     'the tests look up a single configuration; near misses (same kind with other types, same type with other kind) are not sampled',
     [OPI], [('Issuer::credential_configuration_id', OPI), ('PartialEq of CredentialAuthorization, ProfileW3c, ProfileIsoMdl, ProfileSdJwt', OPI)],
     'proved for any number of configurations; ' + STUBBED)
prop('I01', 'An access token is granted only against a live, matching grant',
     'A token request is granted only if its code is known and unexpired, the authorization server is known and supports the grant type used, and, for a pre-authorized code, the code was offered as one, the transaction code equals the one issued (absent if none was issued) and a request without client id comes only where anonymous access is allowed; '
     'for an authorization code, the client id is that of the authorization, the redirect URI equals the one used there and the code verifier hashes to its challenge. A client id given must name a registered client all of whose scopes the server supports. A request that meets every condition is granted.',
     ['inputs', 'histories', 'fault_sequences'], 'every stored state, request, metadata and moment, with any store operation failing',
     'the tests redeem one pre-authorized and two authorization codes; wrong combinations of code kind, client, redirect URI, verifier, PIN and expiry are not sampled',
     [ISS + 'token.rs', ISS + 'state.rs'], [('token::{token,Context::verify}', ISS + 'token.rs'), ('State::is_expired', ISS + 'state.rs')],
     'proved for every stored state and request; store, metadata and clock are provider contracts; expiry to one second; ' + STUBBED)
prop('I02', 'A code is redeemed at most once, whatever becomes of the request',
     'As soon as a token request presents a known code, the code is withdrawn before anything is granted: after the request, granted, refused or failed, the code no longer works. If the code cannot be withdrawn, no token is granted.',
     ['histories', 'fault_sequences'], 'every stored state and request, every outcome of verification and any store operation failing',
     'the tests redeem each code once with valid values; refused requests and failing stores are not sampled',
     [ISS + 'token.rs'], [('token::token', ISS + 'token.rs')],
     'proved over the ghost history of store operations; generated tokens (C02) are assumed not to collide with codes; ' + STUBBED)
prop('I03', 'A token carries exactly the credentials authorized, narrowed to those asked for',
     'A granted token is newly generated and stored under its own name for 15 minutes, bound to the subject of the grant, with a fresh nonce valid 10 minutes that is the one returned. '
     'It covers exactly the credentials of the grant or, if the request lists authorization details, those of the details listed, each under the configuration it was authorized for, and the response lists the details granted with their identifiers. A listed detail that was not authorized, or whose claims are unsupported or incomplete, makes the request fail with nothing stored.',
     ['inputs', 'histories', 'fault_sequences'], 'every grant (any number of items and identifiers) and every list of details',
     'the tests use grants with one or two items and at most one detail',
     [ISS + 'token.rs'], [('token::{Context::process,retain_details,verify_claims,authorized_details,authorized_credentials}', ISS + 'token.rs')],
     'proved for any number of items, identifiers and details; claim checks by the contracts O01 and O02; where an identifier occurs in several items any of them may supply its configuration; ' + STUBBED)
prop('I04', 'A credential goes only to the holder of a token covering it, on valid proofs',
     'A credential is issued or deferred only if the access token is a known, unexpired token whose nonce has not expired, the token covers the credential requested (by identifier, or by the configuration of the requested format), and its configuration is supported. '
     'Where the configuration requires proofs, at least one is given and every one is a validly signed proof token naming its key and carrying the current nonce of the token. A request that meets all this fails for internal reasons only.',
     ['inputs', 'histories', 'fault_sequences'], 'every stored state, request (any number of proofs), metadata and moment, with any store operation failing',
     'the tests issue with one valid proof; missing, foreign, stale or mixed proofs, expired tokens and credentials of other tokens are not sampled',
     [ISS + 'credential.rs', ISS + 'state.rs'], [('credential::{credential,Context::verify,credential_config,invalid_proof}', ISS + 'credential.rs'), ('Token::c_nonce_expired', ISS + 'state.rs')],
     'proved for every stored state and request; signature checking (jws::decode) is an assumed contract; formats left as todo!() in the source are outside; ' + STUBBED)
prop('I05', 'A nonce is good for one credential: issuance or a bad proof replaces it',
     'When a credential is issued, or a proof is found invalid, the nonce of the token is replaced by a newly generated one that lives 10 minutes and is returned; the old nonce works no more. '
     'The endpoint stores tokens only under the name of the token presented, with their subject and credentials unchanged, and gives no other name the powers of a token. A request that lacks only a valid proof is answered as an invalid proof.',
     ['histories', 'fault_sequences', 'inputs'], 'every stored state, request and proof list, and every outcome of store operations',
     'the tests do not look at the stored nonce after issuance or refusal, nor replay proofs',
     [ISS + 'credential.rs'], [('credential::{Context::process,issue_response,invalid_proof}', ISS + 'credential.rs')],
     'proved over the ghost history of store operations; that a state stored under a token is that of this token is I03; ' + STUBBED)
prop('I06', 'What is issued is the holder\'s own data, authorized, asked for and signed',
     'The credential returned is the one signed by the issuer\'s signer, in the format and with the type of its configuration, about the holder whose key proved possession. '
     'Its claims are exactly those of the dataset of the token\'s subject for the credential requested, narrowed to the claims authorized and, if the request lists claims, to those listed, with its own status; nothing is issued from pending data.',
     ['inputs'], 'every token, dataset, configuration and claim selection',
     'the tests issue fixed datasets with all claims; narrowing, several identifiers and subjects are not sampled',
     [ISS + 'credential.rs'], [('credential::{Context::process,issue,dataset,jwt_vc_json,mso_mdoc}', ISS + 'credential.rs')],
     'proved for every dataset and selection; the encoders (w3c proof, mdoc) and the signer are contracts; ' + STUBBED)
prop('I07', 'A code is issued only for a valid authorization request, for what it asks',
     'A code is issued only if issuer, client and server are known, the request was pushed where that is required, response type, grant, scopes, redirect URI and challenge method are allowed for client and server, the challenge has 43 to 128 characters, the holder is identified, any offer referred to is open and made to that holder, and everything asked for by details or scope is supported. '
     'The code is new, lives 5 minutes, is bound to client, redirect URI, challenge and holder, and covers exactly the configurations asked for (details before scopes), each with the identifiers the holder is authorized for; the offer is closed. A refused request changes nothing.',
     ['inputs', 'histories', 'fault_sequences'], 'every request (any number of details and scopes), stored offer, metadata and moment',
     'the tests authorize five fixed requests; combinations of details and scopes, foreign offers and unregistered values are not sampled',
     [ISS + 'authorize.rs'], [('authorize::{authorize,Context::verify,verify_authorization_details,verify_scope,process}', ISS + 'authorize.rs')],
     'proved for any number of details, scopes and configurations; verify_scope by its own proved contract; of several details for one configuration any may stand for it; ' + STUBBED)
prop('I08', 'A pushed request is verified when pushed and stands for itself until it expires',
     'A pushed authorization request is accepted only if it would be valid as an authorization request, is stored as pushed under the new request URI returned and is good for 10 minutes. '
     'A code is issued for a request URI only while the request it names is known and unexpired, and then exactly as for that request itself.',
     ['inputs', 'histories', 'fault_sequences'], 'every pushed request, request URI, stored state and moment',
     'the test pushes one valid request; expiry and requests that no longer verify are not sampled',
     [ISS + 'par.rs', ISS + 'authorize.rs'], [('par::{par,verify,process}', ISS + 'par.rs'), ('authorize::authorize', ISS + 'authorize.rs')],
     'as I07; whether a request URI may be used twice is left open (RFC 9126 says SHOULD); ' + STUBBED)
prop('I09', 'An offer stands for exactly what was requested and is handed out once',
     'An offer is made only for supported credentials and grants, pre-authorized only to a named holder; it lists exactly what was requested, is stored for 5 minutes under the new code it contains, bound to the holder and to the transaction code returned (present exactly if required and pre-authorized), with the identifiers the holder is authorized for. '
     'An offer by reference is retrievable once, while unexpired, for its own issuer, exactly as made. A refused request stores nothing.',
     ['inputs', 'histories', 'fault_sequences'], 'every offer request (any number of credentials and grants), stored state and moment',
     'the tests create two fixed offers and retrieve one; expiry, reuse, mixed grants and refusals are not sampled',
     [ISS + 'create_offer.rs', ISS + 'credential_offer.rs'], [('create_offer::{create_offer,Context::verify,process,credential_offer,authorize,state_key}', ISS + 'create_offer.rs'), ('credential_offer::credential_offer', ISS + 'credential_offer.rs')],
     'proved for any number of credentials and grants; QR/URI rendering of an offer is outside; ' + STUBBED)
prop('I10', 'A deferred credential is delivered once, for its own transaction, when ready',
     'Issuance is deferred exactly when the data are pending: the request is kept as made under a new transaction id for 15 minutes. '
     'The deferred endpoint delivers only for a known, unexpired transaction, by making the request deferred with the token presented, and only what the credential endpoint issues for it; a delivered transaction is over, a pending or failed one remains.',
     ['histories', 'fault_sequences', 'inputs'], 'every stored state, request, outcome of the credential endpoint and store failure',
     'the test defers and delivers once; repeated, early, expired and failing deliveries are not sampled',
     [ISS + 'deferred.rs', ISS + 'credential.rs'], [('deferred::{deferred,process}', ISS + 'deferred.rs'), ('credential::{defer_response}', ISS + 'credential.rs')],
     'proved against the contract of the credential endpoint (I04 to I06); ' + STUBBED)
prop('I11', 'A notification is accepted once, for a credential that was issued',
     'Every issued credential comes with a new notification id under which the credential signed is kept. A notification is accepted only under such an id and then ends it; it removes nothing else and stores nothing.',
     ['histories', 'fault_sequences', 'inputs'], 'every stored state, notification and store failure',
     'the test sends one notification; repeated and foreign ids are not sampled',
     [ISS + 'notification.rs', ISS + 'credential.rs'], [('notification::{notification,process}', ISS + 'notification.rs'), ('credential::issue_response', ISS + 'credential.rs')],
     'proved over the ghost history of store operations; the endpoint does not check the access token (not claimed); ' + STUBBED)
W3P, VER = 'crates/w3c-vc/src/', 'vercre-verifier/src/'
prop('W01', 'A secured credential or presentation is signed whole and verified as signed',
     'Securing a credential or presentation in a JWT format signs exactly it, with issuer, subject, id, issue time and expiry taken from the credential, or holder, id, audience, nonce and one hour of validity for the presentation; other formats are refused. '
     'Verifying a token succeeds only if it is validly signed by the key it names and then yields exactly the credential, or the presentation with its audience and nonce, that was signed; an unsigned credential never verifies.',
     ['inputs'], 'every credential and presentation (any number of subjects, types, proofs), payload, format, signer and token',
     'the tests secure and verify one credential and one presentation with fixed keys',
     [W3P + 'proof.rs', W3P + 'proof/jose.rs'], [('proof::{create,verify}', W3P + 'proof.rs'), ('VcClaims::from_vc, VpClaims conversions', W3P + 'proof/jose.rs')],
     'proved for every payload and token; JWS encoding and decoding and the key look-up of verify_key! are contracts (the bounded run uses several keys per DID); signatures of embedded (data integrity) proofs are not checked by the code and not claimed; ' + STUBBED)
prop('W02', 'Built credentials and presentations hold exactly what was added, in order',
     'A credential or presentation builder yields exactly what was added, in order, after the base context and type, and refuses to build one that lacks a context, type, issuer or subject (for presentations: context or type). '
     'A language string holds every value added and answers a language with the first value for it; a presentation is read from JSON or its base64url form, and any other text is refused without failing.',
     ['inputs', 'histories'], 'every sequence of builder calls and every text',
     'the tests build one credential and one presentation; repeated and missing parts, empty texts and mixed languages are not sampled',
     [W3P + 'model/vc.rs', W3P + 'model/vp.rs', W3P + 'model/types.rs'], [('VcBuilder', W3P + 'model/vc.rs'), ('VpBuilder, VerifiablePresentation::from_str', W3P + 'model/vp.rs'), ('LangString', W3P + 'model/types.rs')],
     'contracts on each builder step from any builder state; serde (de)serialisation assumed; ' + STUBBED)
prop('V01', 'A presentation request asks exactly what was specified, freshly, for its client',
     'A presentation request is created only for a known client that asks for at least one credential; it asks for exactly the credentials and purpose specified, under a new name and a new nonce, names its client, carries its metadata and is kept for 5 minutes under its name. '
     'In the same-device flow the caller gets the request kept, across devices only where to fetch it; it is served only under its name and to its client, signed by that client, exactly as kept. Nothing else is stored or removed.',
     ['inputs', 'histories', 'fault_sequences'], 'every request (any number of descriptors), client, stored state and store failure',
     'the tests create two fixed requests and fetch one; unknown and foreign clients and refusals are not sampled',
     [VER + 'create_request.rs', VER + 'request_object.rs'], [('create_request::{create_request,verify,process}', VER + 'create_request.rs'), ('request_object::{request_object,process}', VER + 'request_object.rs')],
     'proved for every request and stored state; generators are C02; whether an expired request is still served is left open; ' + STUBBED)
prop('V02', 'A presentation is accepted only if it answers its request in full, once',
     'A response is accepted only for a known, unexpired request, if every presentation in it verifies, carries the nonce of the request and (as a JWT) is made for its client, the submission is for its definition, and each credential asked for is mapped to the one node its path selects: a validly signed, unexpired credential in an allowed format that meets the constraints. '
     'An accepted response ends the request; a refused one changes nothing; a response that meets all of this is accepted.',
     ['inputs', 'histories', 'fault_sequences'], 'every stored request, response (any number of presentations, descriptors and mappings), moment and store failure',
     'the test accepts one response; wrong nonces, audiences, definitions, mappings, signatures and constraints and replays are not sampled',
     [VER + 'response.rs', VER + 'state.rs'], [('response::{response,verify,process}', VER + 'response.rs'), ('State::expired', VER + 'state.rs'), ('proof::verify', W3P + 'proof.rs')],
     'proved for any number of presentations, descriptors and mappings; constraint evaluation by contract (D01), JSONPath and JWS decoding assumed; embedded presentation proofs, holder binding and credential status are not checked by the code and not claimed; ' + STUBBED)
HO, HOP = 'vercre-holder/src/issuance/', 'vercre-holder/src/presentation/'
prop('H01', 'A wallet flow holds what was offered, accepted and received, and ends once',
     'A flow starts only for an offer whose every credential its issuer supports, and holds that offer. It can be accepted once, for the credentials offered or some of them, narrowed to the claims chosen, and then waits for a PIN exactly if the offer asks for one. '
     'Saving stores every credential received and then ends the flow, or keeps it without them while something is deferred; cancelling ends it; the issuer is told if the flow has a notification id. A step that is refused or fails before then leaves the flow as it was.',
     ['inputs', 'histories', 'fault_sequences'], 'every offer, issuer metadata, stored flow, acceptance and failure of the store, the credential store or the issuer',
     'the tests walk one or two flows to the end; refusals, repeated steps, partial acceptance and failures are not sampled',
     [HO + x for x in ('offer.rs', 'accept.rs', 'pin.rs', 'cancel.rs', 'save.rs')], [('offer::offer', HO + 'offer.rs'), ('accept::{accept,narrow_scope}', HO + 'accept.rs'), ('pin::pin', HO + 'pin.rs'), ('cancel::cancel', HO + 'cancel.rs'), ('save::save', HO + 'save.rs'), ('Issuance', 'vercre-holder/src/issuance.rs')],
     'proved for any number of credentials, acceptances and claims; the issuer, store and credential store are contracts with arbitrary answers and failures; ' + STUBBED)
prop('H02', 'A wallet asks for a token only for what its holder accepted, as it must prove',
     'A token is requested only in an accepted pre-authorized flow, with the code offered and the PIN given, or after an authorization granted by the issuer to a request that names the client, holder, credentials accepted (or asked for) and a fresh PKCE challenge, with the code granted and the verifier of that challenge. '
     'The token granted is kept in the flow, and the wallet is told exactly the credentials it is for. Without a token the flow does not change.',
     ['inputs', 'histories', 'fault_sequences'], 'every stored flow, issuer and server metadata, wallet-initiated request, answer of the issuer and store failure',
     'the tests request one token each way; other statuses, partial acceptance, missing metadata and refusals are not sampled',
     [HO + 'token.rs', HO + 'authorize.rs'], [('token::{token,token_request,authorized_credentials}', HO + 'token.rs'), ('authorize::{authorize,authorization_details,authorization_request,token_request}', HO + 'authorize.rs')],
     'proved for any number of details; which of several supported response types is asked for is left open; PKCE and generators are C02/C03 by contract; ' + STUBBED)
prop('H03', 'A wallet proves its key in every credential request and keeps what verifies',
     'Credentials are requested only with a token received, for what it authorizes, each request with a proof of possession signed by the wallet for that issuer with the current nonce (the one last received). '
     'What is kept of an answer is exactly the credential received, if it is validly signed, with the metadata of its configuration, or else the transaction deferred, under its configuration; a deferred credential is collected with the token of its flow and then no longer deferred. No input makes the wallet fail.',
     ['inputs', 'histories', 'fault_sequences'], 'every stored flow, request, answer of the issuer (immediate, deferred, unverifiable), metadata and failure',
     'the tests collect one credential and one deferred credential; several credentials with changing nonces, wallet-initiated flows and odd metadata are not sampled',
     [HO + 'credentials.rs', HO + 'deferred.rs'], [('credentials::{credentials,credential_by_identifier,credential_by_format,credential,process_credential_response}', HO + 'credentials.rs'), ('deferred::deferred', HO + 'deferred.rs')],
     'every single request, and what is kept of its answer, is proved; what gathers over several requests is bounded (driver); ' + STUBBED)
prop('H04', 'A wallet presents only what was asked for, authorized, to the verifier who asked',
     'A presentation request is taken up only as given or, when fetched, as validly signed; the flow holds, and the holder is shown, exactly the credentials found for what it asks. It is authorized once, and only then presented: '
     'the one presentation sent holds exactly those credentials as issued, is signed by the holder for the verifier asking with its nonce, with a submission for its definition that answers every credential asked for, and goes where the request says with its state. Reading a status back yields the status written; no text makes it fail.',
     ['inputs', 'histories', 'fault_sequences'], 'every request text, request object, stored flow, credentials found, answer and failure',
     'the tests present one credential; unsigned or odd requests, repeated and early steps and several credentials are not sampled',
     [HOP + 'request.rs', HOP + 'authorize.rs', HOP + 'present.rs', 'vercre-holder/src/presentation.rs'], [('request::{request,parse_request_object_response,build_filter}', HOP + 'request.rs'), ('authorize::authorize', HOP + 'authorize.rs'), ('present::{present,create_submission,create_vp}', HOP + 'present.rs'), ('Status', 'vercre-holder/src/presentation.rs')],
     'proved for any number of credentials and descriptors; only the first descriptor selects credentials and each submission path names one node (not claimed otherwise); JWS decoding assumed; ' + STUBBED)
