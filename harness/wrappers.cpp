/* Runs scripts on the C++ classes.
 * results: A n names..   V idx n values.. | V idx -reason   M 0|1|2 (no message, given, empty)
 *   G type(L|S|B|I|D) how(i idx|c name|s name|p name)   N   H name
 * evidence: e+ mask   e= key value   ex key   er from to   ec   eg prefixes   ey (copy)   ea (assign to another)   es (assign to itself)   ed
 * required: R form(n|v k names|c s|s s|p s)   Rq k names..   Ry (copy)   Ra (assign)   Rs (to itself)   Rc n names..   Rd
 * keys: K upper prefix nh headers.. no names..   U licence url
 * addresses: I text   Ib type bytes size     statuses: X code file|-   Xf code
 * configuration: C cap conc loaded   B upper temp reuse   Bt n dirs..   B? 
 * strings of a file: S n strings.. m (offset) (index of a string or a number beyond with !)
 * a value: Z reasons reason sets number text
 * meta data: W property value property value   Wp number   Wk byte
 * argument: the scratch folder */
#include <stdio.h>
#include <stdlib.h>
#include <cmath>
#include "EngineBase.hpp"
#include "EntityMetaDataBuilder.hpp"
#include "CollectionConfig.hpp"
#include "IpAddress.hpp"
#include "Value.hpp"
#include "fiftyone.h"
#include "wrappers.h"
#include "seq.h"
namespace F = FiftyoneDegrees::Common;
typedef std::string str;
typedef std::vector<str> strs;
static str scratch;
static str tokS() { long n; unsigned char *b = tokHexT(&n, true); str s = b ? str((char*)b, (size_t)n) : str(); free(b); return s; }
static strs tokSs() { strs v; for (long n = tokInt(); n > 0; n--) v.push_back(tokS()); return v; }
static void text(const char *k, const str &s) { evSeq(k, s.data(), (long)s.size()); }
static void seq(const str &s) { printf("["); for (size_t i = 0; i < s.size(); i++) printf("%s%d", i ? "," : "", (unsigned char)s[i]); printf("]"); }
static void list(const char *k, const strs &v) { printf(",\"%s\":[", k); for (size_t i = 0; i < v.size(); i++) { if (i) printf(","); seq(v[i]); } printf("]"); }
struct Names : HelpNames {
	Names(const strs &v) { n = (int)v.size(); name = (char**)calloc(v.size() + 1, sizeof(char*)); for (int i = 0; i < n; i++) name[i] = strdup(v[(size_t)i].c_str()); }
	~Names() { for (int i = 0; i < n; i++) free(name[i]); free(name); }
};
/* ---- results */
struct Held { bool has; int reason; strs values; };
static std::map<int, Held> content; static int messages;
static const char *given = "what the engine says";
class Results : public F::ResultsBase {
public:
	Results(fiftyoneDegreesResultsBase *r, std::shared_ptr<fiftyoneDegreesResourceManager> m) : ResultsBase(r, m) {}
	int index(const char *n) { return getRequiredPropertyIndex(n); }
	int bad = 0;
protected:
	void getValuesInternal(int i, strs &v) override { if (!content.count(i) || !content[i].has) bad++; else v.insert(v.end(), content[i].values.begin(), content[i].values.end()); }
	bool hasValuesInternal(int i) override { return content.count(i) && content[i].has; }
	const char *getNoValueMessageInternal(fiftyoneDegreesResultsNoValueReason) override { return messages == 0 ? nullptr : messages == 1 ? given : ""; }
	fiftyoneDegreesResultsNoValueReason getNoValueReasonInternal(int i) override {
		return content.count(i) ? (fiftyoneDegreesResultsNoValueReason)content[i].reason : FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_INVALID_PROPERTY;
	}
};
static fiftyoneDegreesDataSetBase *dataSet; static Results *results; static std::shared_ptr<fiftyoneDegreesResourceManager> manager;
static void freeResults() {
	delete results; results = nullptr;
	if (dataSet) { fiftyoneDegreesPropertiesFree(dataSet->available); free(dataSet); dataSet = nullptr; }
	content.clear();
}
static void show(const strs &v) { list("value", v); }
static void show(const str &v) { text("value", v); }
static void show(bool v) { printf(",\"value\":%d", v); }
static void show(int v) { printf(",\"value\":%d", v); }
static void show(double v) { printf(",\"value\":%ld", (fabs(v) < 2000 ? lround(v * 1e6) : -77)); }
template <class T> static const char *kindOf(F::Value<T> &v, bool star, T &value, str &what) {
	try { value = star ? *v : v.getValue(); return "none"; }
	catch (F::InvalidPropertyException &x) { what = x.what(); return "invalid"; }
	catch (F::TooManyValuesException &x) { what = x.what(); return "many"; }
	catch (F::NoValuesAvailableException &x) { what = x.what(); return "no"; }
	catch (...) { return "other"; }
}
template <class T> static void got(F::Value<T> v) {
	T a = T(), b = T(); str wa, wb;
	const char *ka = kindOf(v, false, a, wa), *kb = kindOf(v, true, b, wb);
	const char *m = v.getNoValueMessage();
	printf(",\"has\":%d,\"exc\":\"%s\",\"same\":%d,\"reason\":%d,\"msg\":%d", v.hasValue(), ka, strcmp(ka, kb) == 0 && a == b && wa == wb,
		(int)v.getNoValueReason(), m == nullptr ? 0 : m == given ? 1 : 2);
	printf(",\"what\":%d", wa == given ? 1 : wa.empty() ? 0 : 2);
	if (v.hasValue()) show(a); else printf(",\"value\":0");
}
template <class A> static void getBy(char type, A a) {
	switch (type) {
	case 'L': got<strs>(results->getValues(a)); break;
	case 'S': got<str>(results->getValueAsString(a)); break;
	case 'B': got<bool>(results->getValueAsBool(a)); break;
	case 'I': got<int>(results->getValueAsInteger(a)); break;
	default: got<double>(results->getValueAsDouble(a)); break;
	}
}
/* ---- evidence */
class Evidence : public F::EvidenceBase {
public:
	int mask;
	Evidence(int m) : mask(m) {}
protected:
	bool isRelevant(fiftyoneDegreesEvidencePrefix p) override { return mask < 0 || (mask & (int)p); }
};
static Evidence *evidence; static F::RequiredPropertiesConfig *required;
static Names *existingNames; static fiftyoneDegreesPropertiesAvailable *existing;
static void noExisting() { if (existing) fiftyoneDegreesPropertiesFree(existing); existing = nullptr; delete existingNames; existingNames = nullptr; }
static bool visit(void *, fiftyoneDegreesEvidenceKeyValuePair *p) {
	printf("{\"prefix\":%d", (int)p->prefix);
	text("field", p->field); text("value", (const char*)p->originalValue); printf("},");
	return true;
}
/* ---- engine */
class Meta : public F::MetaData {
public:
	Meta(std::shared_ptr<fiftyoneDegreesResourceManager> m) : MetaData(m) {}
	str text(fiftyoneDegreesCollection *c, uint32_t o) { return getString(c, o); }
	F::Collection<byte, F::ComponentMetaData>* getComponents() const override { return nullptr; }
	F::Collection<string, F::PropertyMetaData>* getProperties() const override { return nullptr; }
	F::Collection<uint32_t, F::ProfileMetaData>* getProfiles() const override { return nullptr; }
	F::Collection<F::ValueMetaDataKey, F::ValueMetaData>* getValues() const override { return nullptr; }
	F::Collection<F::ValueMetaDataKey, F::ValueMetaData>* getValuesForProperty(F::PropertyMetaData *) const override { return nullptr; }
	F::Collection<F::ValueMetaDataKey, F::ValueMetaData>* getValuesForProfile(F::ProfileMetaData *) const override { return nullptr; }
	F::ComponentMetaData* getComponentForProfile(F::ProfileMetaData *) const override { return nullptr; }
	F::ComponentMetaData* getComponentForProperty(F::PropertyMetaData *) const override { return nullptr; }
	F::ProfileMetaData* getDefaultProfileForComponent(F::ComponentMetaData *) const override { return nullptr; }
	F::ValueMetaData* getDefaultValueForProperty(F::PropertyMetaData *) const override { return nullptr; }
	F::Collection<string, F::PropertyMetaData>* getPropertiesForComponent(F::ComponentMetaData *) const override { return nullptr; }
	F::PropertyMetaData* getPropertyForValue(F::ValueMetaData *) const override { return nullptr; }
	F::Collection<string, F::PropertyMetaData>* getEvidencePropertiesForProperty(F::PropertyMetaData *) const override { return nullptr; }
};
class Engine : public F::EngineBase {
public:
	Engine(F::ConfigBase *c, F::RequiredPropertiesConfig *r) : EngineBase(c, r) { metaData = new Meta(manager); }
	void headers(fiftyoneDegreesHeaders *h) { initHttpHeaderKeys(h); }
	void overrides(fiftyoneDegreesOverridePropertyArray *o) { initOverrideKeys(o); }
	str text(fiftyoneDegreesCollection *c, uint32_t o) { std::stringstream s; appendString(s, c, o); return s.str(); }
	F::ResultsBase* processBase(F::EvidenceBase *) const override { return nullptr; }
	void refreshData() const override {}
	void refreshData(const char *) const override {}
	void refreshData(void *, long) const override {}
	void refreshData(unsigned char *, long) const override {}
	str getDataFilePath() const override { return ""; }
	str getDataFileTempPath() const override { return ""; }
	F::Date getPublishedTime() const override { return F::Date(); }
	F::Date getUpdateAvailableTime() const override { return F::Date(); }
	str getProduct() const override { return "Prod"; }
	str getType() const override { return "Type"; }
};
class Config : public F::ConfigBase { public: Config(fiftyoneDegreesConfigBase *c) : ConfigBase(c) {} };
class Builder : public F::EntityMetaDataBuilder { public: static str text(fiftyoneDegreesCollection *c, uint32_t o) { return getString(c, o); } };
static fiftyoneDegreesConfigBase *configC; static Config *config;
static void configOut() {
	bool same = configC->usesUpperPrefixedHeaders == config->getUseUpperPrefixHeaders() && configC->useTempFile == config->getUseTempFile()
		&& configC->reuseTempFile == config->getReuseTempFile();
	evBegin("\"e\":\"config\",\"upper\":%d,\"temp\":%d,\"reuse\":%d,\"same\":%d,\"n\":%d", configC->usesUpperPrefixedHeaders, configC->useTempFile, configC->reuseTempFile, same, configC->tempDirCount);
	strs d; for (int i = 0; i < configC->tempDirCount; i++) d.push_back(configC->tempDirs[i]);
	list("dirs", d); list("kept", config->getTempDirectories()); evEnd();
}
template <class Fn> static void thrown(const char *k, const char *code, Fn f) {
	str s; int st = 0;
	try { s = f(); } catch (F::StatusCodeException &x) { s = ""; st = (int)x.getCode(); if (st == 0) st = -2; } catch (...) { st = -1; }
	printf(",\"%s\":%d", code, st); text(k, s);
}
static strs statusText(int code, const char *f) { const char *m = fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)code, f); strs v; if (m) { v.push_back(m); fiftyoneDegreesFree((void*)m); } return v; }
static void requiredOut(const strs &q) {
	evBegin("\"e\":\"requiredare\",\"count\":%d", required->getCount());
	list("list", required->getProperties()); list("ask", q);
	printf(",\"in\":["); for (size_t i = 0; i < q.size(); i++) printf("%s%d", i ? "," : "", i & 1 ? required->containsProperty(q[i]) : required->containsProperty(q[i].c_str())); printf("]");
	list("again", required->getProperties()); printf(",\"count2\":%d", required->getCount()); evEnd();
}
static void script(void) {
	char *t;
	manager = std::make_shared<fiftyoneDegreesResourceManager>();
	configC = (fiftyoneDegreesConfigBase*)calloc(1, sizeof *configC); config = new Config(configC);
	while ((t = tokOpt()) != NULL) {
		switch (*t) {
		case 'A': {
			freeResults();
			strs v = tokSs(); Names n(v);
			dataSet = (fiftyoneDegreesDataSetBase*)calloc(1, sizeof *dataSet);
			dataSet->available = helpAvailable(NULL, &n);
			fiftyoneDegreesResultsBase base; fiftyoneDegreesResultsInit(&base, dataSet);
			results = new Results(&base, manager);
			evBegin("\"e\":\"available\",\"refs\":%ld", manager.use_count()); list("names", v); evEnd();
			break;
		}
		case 'V': {
			int i = (int)tokInt(); Held h; char *k = tok();
			h.has = *k != '-'; h.reason = h.has ? 0 : atoi(k + 1);
			for (int n = h.has ? atoi(k) : 0; n > 0; n--) h.values.push_back(tokS());
			content[i] = h;
			evBegin("\"e\":\"has\",\"idx\":%d,\"has\":%d,\"reason\":%d", i, h.has, h.reason); list("values", h.values); evEnd();
			break;
		}
		case 'M': messages = (int)tokInt(); ev("\"e\":\"messages\",\"on\":%d", messages); break;
		case 'G': {
			char type = *tok(), how = *tok();
			evBegin("\"e\":\"get\",\"type\":\"%c\",\"how\":\"%c\"", type, how);
			if (how == 'i') { int i = (int)tokInt(); printf(",\"idx\":%d,\"name\":[]", i); getBy(type, i); }
			else {
				str s = tokS(); printf(",\"idx\":%d", results->index(s.c_str())); text("name", s);
				if (how == 'c') getBy(type, s.c_str()); else if (how == 's') getBy(type, s); else getBy(type, (const str*)&s);
			}
			printf(",\"bad\":%d", results->bad); evEnd();
			break;
		}
		case 'N': {
			strs by; int n = results->getAvailableProperties();
			for (int i = -1; i <= n; i++) by.push_back(results->getPropertyName(i));
			evBegin("\"e\":\"names\",\"count\":%d", n); list("list", results->getProperties()); list("by", by); evEnd();
			break;
		}
		case 'H': { str s = tokS(); evBegin("\"e\":\"contains\",\"r\":%d", results->containsProperty(s)); text("name", s); evEnd(); break; }
		case 'e': switch (t[1]) {
			case '+': delete evidence; evidence = new Evidence((int)tokInt()); ev("\"e\":\"evidence\",\"mask\":%d", evidence->mask); break;
			case '=': { str k = tokS(), v = tokS(); (*evidence)[k] = v; evBegin("\"e\":\"set\""); text("key", k); text("value", v); evEnd(); break; }
			case 'x': { str k = tokS(); auto i = evidence->find(k); bool f = i != evidence->end(); if (f) evidence->erase(i); evBegin("\"e\":\"erase\",\"found\":%d", f); text("key", k); evEnd(); break; }
			case 'r': { str a = tokS(), b = tokS(); if (b < a) std::swap(a, b); evidence->erase(evidence->lower_bound(a), evidence->lower_bound(b)); evBegin("\"e\":\"eraserange\""); text("from", a); text("to", b); evEnd(); break; }
			case 'c': evidence->clear(); ev("\"e\":\"clear\",\"n\":%d", (int)evidence->size()); break;
			case 'y': { Evidence *o = new Evidence(*evidence); delete evidence; evidence = o; ev("\"e\":\"same\",\"of\":\"evidence\""); break; }
			case 'a': { Evidence *o = new Evidence(evidence->mask); (*o)["header.other"] = "x"; o->get(); *o = *evidence; delete evidence; evidence = o; ev("\"e\":\"same\",\"of\":\"evidence\""); break; }
			case 's': { Evidence &o = *evidence; *evidence = o; ev("\"e\":\"same\",\"of\":\"evidence\""); break; }
			case 'd': delete evidence; evidence = nullptr; ev("\"e\":\"noevidence\""); break;
			case 'g': {
				int p = (int)tokInt();
				evBegin("\"e\":\"given\",\"prefixes\":%d,\"items\":[", p);
				fiftyoneDegreesEvidenceKeyValuePairArray *a = evidence->get();
				uint32_t n = a ? fiftyoneDegreesEvidenceIterate(a, p, NULL, visit) : 0;
				printf("0],\"n\":%u,\"count\":%u,\"ok\":%d", n, a ? a->count : 0, a != NULL); evEnd();
				break;
			}
			default: seqDie("evidence op"); }
			break;
		case 'R': switch (t[1]) {
			case 0: {
				char form = *tok(); strs v; str s; const char *how = "string";
				delete required; noExisting();
				if (form == 'v' || form == 'w') {
					v = tokSs(); how = "list"; strs copy = v;
					required = form == 'v' ? new F::RequiredPropertiesConfig(&copy) : new F::RequiredPropertiesConfig((const strs*)&copy);
					for (auto &x : copy) x = "gone";
				}
				else if (form == 'n') { required = new F::RequiredPropertiesConfig((strs*)nullptr); how = "none"; }
				else {
					s = tokS(); str copy = s;
					required = form == 'c' ? new F::RequiredPropertiesConfig(copy.c_str()) : form == 's' ? new F::RequiredPropertiesConfig(copy) : new F::RequiredPropertiesConfig((const str*)&copy);
					copy.assign(copy.size(), '?');
				}
				evBegin("\"e\":\"required\",\"how\":\"%s\"", how); list("names", v); text("str", s); evEnd();
				break;
			}
			case 'q': requiredOut(tokSs()); break;
			case 'e': {
				strs v = tokSs(); noExisting();
				existingNames = new Names(v); existing = helpAvailable(NULL, existingNames);
				required->getConfig()->existing = existing;
				evBegin("\"e\":\"existing\""); list("names", v); evEnd();
				break;
			}
			case 'y': { auto *o = new F::RequiredPropertiesConfig(*required); delete required; required = o; ev("\"e\":\"same\",\"of\":\"required\""); break; }
			case 'a': { auto *o = new F::RequiredPropertiesConfig("other,ones"); *o = *required; delete required; required = o; ev("\"e\":\"same\",\"of\":\"required\""); break; }
			case 's': { auto &o = *required; *required = o; ev("\"e\":\"same\",\"of\":\"required\""); break; }
			case 'c': {
				strs v = tokSs(); Names n(v);
				fiftyoneDegreesPropertiesAvailable *a = helpAvailable(required->getConfig(), &n);
				strs got; int ok = a != NULL; for (uint32_t i = 0; a && i < a->count; i++) got.push_back(FIFTYONE_DEGREES_STRING(a->items[i].name.data.ptr));
				if (a) fiftyoneDegreesPropertiesFree(a);
				evBegin("\"e\":\"requiredof\",\"ok\":%d", ok); list("names", v); list("got", got); evEnd();
				break;
			}
			default: delete required; required = nullptr; noExisting(); ev("\"e\":\"norequired\""); }
			break;
		case 'K': {
			int upper = (int)tokInt(), prefix = (int)tokInt(); strs h = tokSs(), o = tokSs();
			{
				fiftyoneDegreesConfigBase cb; memset(&cb, 0, sizeof cb);
				Config cfg(&cb); cfg.setUseUpperPrefixHeaders(upper);
				Engine engine(&cfg, nullptr);
				Names nh(h), no(o);
				fiftyoneDegreesHeaders *hs = helpHeaders(upper, &nh);
				fiftyoneDegreesPropertiesAvailable *av = helpAvailable(NULL, &no);
				fiftyoneDegreesOverridePropertyArray *ov = helpOverrides(av, prefix);
				engine.headers(hs); engine.overrides(ov); engine.overrides(nullptr); engine.headers(hs);
				strs keys = *engine.getKeys(); strs hn, on;
				for (uint32_t i = 0; i < hs->count; i++) hn.push_back(hs->items[i].name);
				for (uint32_t i = 0; i < ov->count; i++) on.push_back(FIFTYONE_DEGREES_STRING(ov->items[i].available->name.data.ptr));
				evBegin("\"e\":\"keys\",\"upper\":%d,\"prefix\":%d", upper, prefix); list("headers", hn); list("over", on); list("keys", keys);
				/* what the library makes of each of the keys */
				printf(",\"maps\":[");
				for (size_t i = 0; i < keys.size(); i++) {
					fiftyoneDegreesEvidencePrefixMap *m = fiftyoneDegreesEvidenceMapPrefix(keys[i].c_str());
					const char *f = m ? keys[i].c_str() + m->prefixLength : "";
					printf("%s{\"prefix\":%d,\"idx\":%d}", i ? "," : "", m ? (int)m->prefixEnum : 0, fiftyoneDegreesHeaderGetIndex(hs, f, strlen(f)));
				}
				printf("],\"safe\":%d", engine.getIsThreadSafe()); evEnd();
				helpOverridesFree(ov); fiftyoneDegreesPropertiesFree(av); fiftyoneDegreesHeadersFree(hs);
			}
			break;
		}
		case 'U': {
			str lic = tokS(), url = tokS();
			fiftyoneDegreesConfigBase cb; memset(&cb, 0, sizeof cb);
			Config cfg(&cb); Engine engine(&cfg, nullptr);
			engine.setLicenseKey(lic); engine.setDataUpdateUrl(url);
			evBegin("\"e\":\"url\",\"auto\":%d", engine.getAutomaticUpdatesEnabled()); text("licence", lic); text("set", url); text("r", engine.getDataUpdateUrl()); evEnd();
			break;
		}
		case 'I': if (t[1] == 0) {
				str s = tokS(); int ok = 1, type = 0; strs all;
				fiftyoneDegreesEvidenceIpAddress *p = fiftyoneDegreesIpParseAddress(fiftyoneDegreesMalloc, s.c_str(), s.c_str() + s.size());
				try {
					FiftyoneDegrees::IpIntelligence::IpAddress a(s.c_str());
					type = (int)a.getType();
					for (uint32_t n : { 0u, 3u, 4u, 5u, 16u, 20u }) { unsigned char b[20]; memset(b, 0xEE, sizeof b); a.getCopyOfIpAddress(b, n); all.push_back(str((char*)b, sizeof b)); }
				} catch (std::bad_alloc &) { ok = 0; } catch (...) { ok = -1; }
				evBegin("\"e\":\"address\",\"ok\":%d,\"type\":%d,\"ctype\":%d", ok, type, p ? (int)p->type : -1);
				text("c", p ? str((char*)p->address, p->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : 16) : str());
				list("copies", all); text("text", s); evEnd();
				fiftyoneDegreesFree(p);
			} else {
				int type = (int)tokInt(); str b = tokS(); uint32_t size = (uint32_t)tokInt();
				FiftyoneDegrees::IpIntelligence::IpAddress a((const unsigned char*)b.data(), (fiftyoneDegreesEvidenceIpType)type);
				unsigned char *q = (unsigned char*)malloc(size + 1); memset(q, 0xEE, size + 1);
				a.getCopyOfIpAddress(q, size);
				evBegin("\"e\":\"addressof\",\"type\":%d,\"t\":%d,\"size\":%u", type, (int)a.getType(), size); text("bytes", b); text("copy", str((char*)q, size + 1)); evEnd();
				free(q);
			}
			break;
		case 'X': {
			if (t[1] == 0) {
				int code = (int)tokInt(); char *f = tokStr(); int c = -1; str what;
				memset(&c, 0x5A, sizeof c);
				try { if (f) throw F::StatusCodeException((fiftyoneDegreesStatusCode)code, f); else throw F::StatusCodeException((fiftyoneDegreesStatusCode)code); }
				catch (std::exception &x) { F::StatusCodeException *y = dynamic_cast<F::StatusCodeException*>(&x); what = x.what(); c = y ? (int)y->getCode() : -9; }
				evBegin("\"e\":\"status\",\"code\":%d,\"r\":%d", code, c); text("what", what); strs m = statusText(code, f); text("message", m.empty() ? "" : m[0]); evEnd();
				free(f);
			} else {
				int code = (int)tokInt();
				fiftyoneDegreesException x; x.status = (fiftyoneDegreesStatusCode)code; x.file = "f.c"; x.func = "fn"; x.line = 7;
				const char *m = fiftyoneDegreesExceptionGetMessage(&x); str want = m ? m : ""; fiftyoneDegreesFree((void*)m);
				int c = -1; str what;
				fiftyoneDegreesException *exception = &x;
				try { FIFTYONE_DEGREES_EXCEPTION_THROW } catch (F::FatalException &y) { c = (int)y.getCode(); what = y.what(); }
				evBegin("\"e\":\"fatal\",\"code\":%d,\"okay\":%d,\"r\":%d", code, FIFTYONE_DEGREES_EXCEPTION_OKAY, c); text("what", what); text("message", want); evEnd();
			}
			break;
		}
		case 'C': {
			fiftyoneDegreesCollectionConfig q; memset(&q, 0xEE, sizeof q);
			F::CollectionConfig c(&q);
			uint32_t cap = (uint32_t)tokInt(); uint16_t conc = (uint16_t)tokInt(); uint32_t load = (uint32_t)tokInt();
			c.setCapacity(cap); c.setConcurrency(conc); c.setLoaded(load);
			ev("\"e\":\"collection\",\"cap\":%u,\"conc\":%u,\"load\":%u,\"in\":[%u,%u,%u],\"out\":[%u,%u,%u],\"same\":%d", cap, conc, load, q.capacity, q.concurrency, q.loaded, c.getCapacity(), c.getConcurrency(), c.getLoaded(), c.getConfig() == &q);
			break;
		}
		case 'B':
			if (t[1] == 0) {
				int a = (int)tokInt(), b = (int)tokInt(), c = (int)tokInt();
				config->setUseUpperPrefixHeaders(a); config->setUseTempFile(b); config->setReuseTempFile(c);
				ev("\"e\":\"setconfig\",\"upper\":%d,\"temp\":%d,\"reuse\":%d", a, b, c);
			}
			else { strs v = tokSs(); config->setTempDirectories(v); evBegin("\"e\":\"setdirs\""); list("dirs", v); evEnd(); }
			configOut();
			break;
		case 'S': {
			strs v = tokSs(); long m = tokInt();
			str path = scratch + "/strings" + std::to_string(getpid()); FILE *f = fopen(path.c_str(), "wb");
			std::vector<uint32_t> at; uint32_t end = 0;
			fwrite("head", 4, 1, f);
			for (auto &s : v) { at.push_back(end); int16_t n = (int16_t)(s.size() + 1); fwrite(&n, 2, 1, f); fwrite(s.c_str(), s.size() + 1, 1, f); end += 3 + (uint32_t)s.size(); }
			fclose(f);
			FIFTYONE_DEGREES_EXCEPTION_CREATE
			fiftyoneDegreesFilePool pool;
			if (fiftyoneDegreesFilePoolInit(&pool, path.c_str(), 1, exception) != FIFTYONE_DEGREES_STATUS_SUCCESS) seqBad("pool");
			f = fopen(path.c_str(), "rb"); fseek(f, 4, SEEK_SET);
			fiftyoneDegreesCollection *c = helpStrings(f, &pool, 4, end);
			fclose(f);
			if (c == NULL) seqBad("strings");
			{
				fiftyoneDegreesConfigBase cb; memset(&cb, 0, sizeof cb);
				Config cfg(&cb); Engine engine(&cfg, nullptr); Meta meta(manager);
				for (; m > 0; m--) {
					long i = tokInt(); uint32_t o = i < (long)at.size() ? at[(size_t)i] : end + (uint32_t)i * 100;
					evBegin("\"e\":\"string\",\"in\":%d", i < (long)at.size()); text("want", i < (long)at.size() ? v[(size_t)i] : "");
					fiftyoneDegreesException cx; cx.status = FIFTYONE_DEGREES_STATUS_NOT_SET; fiftyoneDegreesCollectionItem item; fiftyoneDegreesDataReset(&item.data);
					if (fiftyoneDegreesStringGet(c, o, &item, &cx)) c->release(&item);
					printf(",\"status\":%d", cx.status == FIFTYONE_DEGREES_STATUS_NOT_SET ? 0 : (int)cx.status);
					thrown("meta", "metas", [&] { return meta.text(c, o); });
					thrown("builder", "builders", [&] { return Builder::text(c, o); });
					thrown("engine", "engines", [&] { return engine.text(c, o); });
					evEnd();
				}
			}
			helpFree(c); fiftyoneDegreesFilePoolRelease(&pool);
			unlink(path.c_str());
			break;
		}
		case 'Z': {
			/* a value of each type which had reasons for not being there before it had a value, or two */
			int reasons = (int)tokInt(), reason = (int)tokInt(), sets = (int)tokInt(), n = (int)tokInt(); str s = tokS();
			F::Value<str> vs; F::Value<int> vi; F::Value<bool> vb; F::Value<strs> vl;
			for (int i = reasons; i-- > 0;) {
				fiftyoneDegreesResultsNoValueReason x = (fiftyoneDegreesResultsNoValueReason)((reason + i) % 8);
				const char *m = (reason + i) & 8 ? given : nullptr;
				vs.setNoValueReason(x, m); vi.setNoValueReason(x, m); vb.setNoValueReason(x, m); vl.setNoValueReason(x, m);
			}
			for (int i = sets; i-- > 0;) { vs.setValue(i ? s + "x" : s); vi.setValue(n + i); vb.setValue((n + i) & 1); vl.setValue(strs((size_t)(n % 4 + i), s)); }
			const char *types[] = { "S", "I", "B", "L" };
			for (const char *y : types) {
				evBegin("\"e\":\"valueof\",\"type\":\"%s\",\"reasons\":%d,\"of\":%d,\"sets\":%d,\"n\":%d", y, reasons, reason, sets, n); text("s", s);
				switch (*y) { case 'S': got<str>(vs); break; case 'I': got<int>(vi); break; case 'B': got<bool>(vb); break; default: got<strs>(vl); }
				evEnd();
			}
			break;
		}
		case 'W': {
			str a = tokS(), b = tokS(), c = tokS(), d = tokS(); int n = (int)tokInt();
			F::ValueMetaDataKey x(a, b), y(c, d);
			F::ValueMetaData vx(x, c, d), vy(y, a, b), vz(&vx);
			evBegin("\"e\":\"value\",\"lt\":%d,\"gt\":%d,\"eq\":%d,\"self\":%d,\"same\":%d,\"differ\":%d", x < y, y < x, x == y, x < x, vx == vy, vx != vy);
			list("keys", strs { a, b, c, d }); list("copy", strs { vz.getKey().getPropertyName(), vz.getKey().getValueName(), vz.getName(), vz.getDescription(), vz.getUrl() });
			printf(",\"cp\":%d", vz == vx);
			/* the other entities, as copies of what they are made of */
			std::vector<uint32_t> props; for (int i = 0; i < n % 9; i++) props.push_back((uint32_t)(n + i));
			F::PropertyMetaData p(a, strs { b, c }, b, c, d, n & 1, (byte)(n % 256), (n & 2) != 0, (n & 4) != 0, (n & 8) != 0, (n & 16) != 0, (n & 32) != 0, d + a, a + b, (byte)(n / 3 % 256), props), q(&p);
			list("prop", strs { q.getName(), q.getType(), q.getCategory(), q.getUrl(), q.getDescription(), q.getDefaultValue() });
			list("files", q.getDataFilesWherePresent());
			std::vector<uint32_t> ep = q.getEvidenceProperties();
			printf(",\"n\":%d,\"flags\":[%d,%d,%d,%d,%d,%d],\"order\":%d,\"comp\":%d,\"evn\":%d", n, q.getAvailable(), q.getIsMandatory(), q.getIsList(), q.getIsObsolete(), q.getShow(), q.getShowValues(),
				q.getDisplayOrder(), q.getComponentId(), (int)ep.size());
			printf(",\"ev\":["); for (size_t i = 0; i < ep.size(); i++) printf("%s%u", i ? "," : "", ep[i]); printf("]");
			F::ComponentMetaData k((byte)(n % 256), a, (uint32_t)n * 3), kk(&k);
			F::ProfileMetaData r((uint32_t)n, (byte)(n / 5 % 256)), rr(&r);
			printf(",\"component\":[%d,%d,%u],\"profile\":[%u,%d]", kk.getComponentIdAsInt(), kk.getComponentId(), kk.getDefaultProfileId(), rr.getProfileId(), rr.getComponentId());
			text("cname", kk.getName());
			fiftyoneDegreesDate dt; dt.year = (int16_t)(n % 3000); dt.month = (byte)(n % 13); dt.day = (byte)(n % 32); F::Date dd(&dt);
			printf(",\"date\":[%d,%d,%d]", dd.getYear(), dd.getMonth(), dd.getDay());
			evEnd();
			break;
		}
		default: seqDie("op");
		}
	}
	freeResults();
	delete evidence; evidence = nullptr; delete required; required = nullptr; noExisting(); delete config; config = nullptr;
	int dirs = configC->tempDirs == NULL && configC->tempDirCount == 0; free(configC);
	ev("\"e\":\"end\",\"live\":%ld,\"refs\":%ld,\"dirs\":%d", seqLive, manager.use_count(), dirs);
	manager.reset(); messages = 0;
}
int main(int argc, char **argv) {
	scratch = argc > 1 ? argv[1] : ".";
	seqUse();
	return seqLoop(script, 20);
}
