// Coverage-guided part of X04: any bytes, any encoding, from text or a file.
#include "fz.hpp"
#include <sstream>
#include <tinyxml.h>
static std::string printed(const TiXmlNode &n) {
  TiXmlPrinter p;
  n.Accept(&p);
  return p.Str();
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  fz::init("every executed input; distinct: inputs that were parsed without error");
  if (!size)
    return 0;
  unsigned how = data[0];
  std::string text(reinterpret_cast<const char *>(data + 1), size - 1);
  static const TiXmlEncoding encs[] = {TIXML_ENCODING_UNKNOWN, TIXML_ENCODING_UTF8, TIXML_ENCODING_LEGACY, TIXML_ENCODING_UNKNOWN};
  TiXmlBase::SetCondenseWhiteSpace(!(how & 4));
  TiXmlDocument doc;
  if (how & 16)
    doc.SetTabSize(int(how >> 5));
  if ((how & 8) && !text.empty()) {
    FILE *fp = fmemopen(&text[0], text.size(), "rb");
    doc.LoadFile(fp, encs[how & 3]);
    fclose(fp);
  } else
    doc.Parse(text.c_str(), 0, encs[how & 3]);
  if (doc.Error() && (!doc.ErrorDesc() || !*doc.ErrorDesc() || doc.ErrorId() <= 0))
    fz::fail("error-description", "an error without description");
  if (doc.ErrorRow() < 0 || doc.ErrorRow() > long(text.size()) + 1 || doc.ErrorCol() < 0 || doc.ErrorCol() > long(text.size() + 1) * 9)
    fz::fail("error-position", "the position of the error is beyond the input");
  if (doc.Error())
    ++fz::stats().rejected;
  else
    fz::accept(text);
  std::string a = printed(doc);
  TiXmlDocument copy(doc);
  std::ostringstream o;
  o << doc;
  FILE *fp = fopen("/dev/null", "w");
  doc.Print(fp, 0);
  fclose(fp);
  if (text.find('\0') == std::string::npos && a.find("&#x00;") == std::string::npos && a.find('\0') == std::string::npos && !doc.Error()) {
    if (printed(copy) != a)
      fz::fail("copies-differ", "the copy of a document prints differently");
  }
  return 0;
}
