# renamed fields, methods and types
import re,glob
def rename(files, pairs):
    for f in files:
        for p in glob.glob(f):
            s=open(p).read(); o=s
            for a,b in pairs: s=re.sub(r'\b%s\b'%a,b,s)
            if s!=o: open(p,'w').write(s)
rename(['*.go'],[('domainCatalogs','catalogByDomain'),('lookupSingularTranslation','singular'),('fallbackLocale','fallbackLoc'),('localeFound','hasLocale')])
rename(['catalog/*.go'],[('jsonCatalog','jsonCat'),('lookupMap','entries'),('pluralSet','rules'),('getTranslation','textOf')])
rename(['catalog/po/*.go'],[('encodeHeader','writeHeaderTo'),('wrapWidth','width'),('encodeTranslations','writeTranslations'),('parseComment','readComment')])
rename(['catalog/poplural/ast/*.go'],[('multiplicativeExpression','mulExpr'),('compileNode','nodeText')])
