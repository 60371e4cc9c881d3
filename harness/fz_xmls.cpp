// Coverage-guided part of X05: any bytes from a stream, as documents or single nodes.
#include "fz.hpp"
#include <memory>
#include <sstream>
#include <tinyxml.h>
static std::string printed(const TiXmlNode &n) {
  TiXmlPrinter p;
  n.Accept(&p);
  return p.Str();
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  fz::init("every executed input; distinct: inputs whose first document was read without error");
  if (!size)
    return 0;
  unsigned how = data[0];
  std::string text(reinterpret_cast<const char *>(data + 1), size - 1);
  TiXmlBase::SetCondenseWhiteSpace(!(how & 1));
  std::istringstream in(text);
  bool nul = text.find('\0') != std::string::npos;
  if (how & 2) { // single nodes
    std::unique_ptr<TiXmlNode> n;
    switch (how >> 2 & 7) {
    case 0: n.reset(new TiXmlComment); break;
    case 1: n.reset(new TiXmlDeclaration); break;
    case 2: n.reset(new TiXmlUnknown); break;
    case 3: n.reset(new TiXmlText("")); break;
    case 4: {
      TiXmlText *t = new TiXmlText("");
      t->SetCDATA(true);
      n.reset(t);
      break;
    }
    default: n.reset(new TiXmlElement(""));
    }
    in >> *n;
    ++fz::stats().rejected;
    return 0;
  }
  size_t from = 0;
  for (int i = 0; i < 20; ++i) {
    TiXmlDocument doc;
    in >> doc;
    bool good = in.good();
    in.clear();
    size_t to = size_t(in.tellg());
    if (to < from || to > text.size())
      fz::fail("stream-position", "the stream was moved back or beyond its end");
    if (!nul) {
      TiXmlDocument ref;
      ref.Parse(text.substr(from, to - from).c_str(), 0, TIXML_ENCODING_UNKNOWN);
      if (ref.Error() != doc.Error() || ref.ErrorId() != doc.ErrorId() || printed(ref) != printed(doc))
        fz::fail("stream-parse", "reading from a stream differs from parsing what was read");
    }
    if (i == 0) {
      if (doc.Error())
        ++fz::stats().rejected;
      else
        fz::accept(text);
    }
    if (to == from || !good)
      break;
    from = to;
  }
  return 0;
}
