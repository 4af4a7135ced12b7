# NA[...], NOTE[...] entries for mkmanifest
