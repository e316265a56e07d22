// Runs of the whole pipeline.
#ifndef PPV_E2E_H_
#define PPV_E2E_H_

#include <string>

#include "./pbt.h"
#include "Config.h"
#include "Types.h"

namespace ppv {

/** The default configuration. */
ppp::config::Config fullConfig();

/** Processes the given bytes by the whole pipeline. */
int process(ppp::types::PdfDocument* doc, const std::string& bytes, const ppp::config::Config& config);
void process(ppp::types::PdfDocument* doc, const std::string& bytes);

/** All blocks get the role with the given index. */
void constantRoles(int role);

/** Predicts the roles title, heading and paragraph from the font. */
void articleRoles(bool hasTitle);

/** The plain text, of all roles. */
std::string plainText(const ppp::types::PdfDocument* doc);

/** All elements of a document with all their properties, except the (random) ids. */
std::string dump(const ppp::types::PdfDocument* doc);

}  // namespace ppv

#endif  // PPV_E2E_H_
