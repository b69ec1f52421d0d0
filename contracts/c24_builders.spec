# C24: builders set what they name and nothing else
func spec.BooleanProperty
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeBoolean}
func spec.Float64Property
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeNumber, Format: "double"}
func spec.Float32Property
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeNumber, Format: "float"}
func spec.FloatFmtProperty
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeNumber, Format: format}
func spec.Int8Property
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeInteger, Format: "int8"}
func spec.Int16Property
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeInteger, Format: "int16"}
func spec.Int32Property
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeInteger, Format: "int32"}
func spec.Int64Property
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeInteger, Format: "int64"}
func spec.IntFmtProperty
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeInteger, Format: format}
func spec.StrFmtProperty
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeString, Format: format}
func spec.StringProperty
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeString}
func spec.ByteProperty
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeString, Format: "byte"}
func spec.BinaryProperty
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeString, Format: "binary"}
func spec.PasswordProperty
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeString, Format: "password"}
func spec.DateProperty
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeString, Format: result.Format, Example: timeExample}
  ensures result.Format == "date"
func spec.DateTimeProperty
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeString, Format: result.Format, Example: timeExample}
  ensures result.Format == "date-time"
func spec.MapProperty
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeObject, AdditionalProperties: property}
func spec.ArrayProperty
  props C24
  ensures fresh(result) && *result == Schema{Type: TypeArray, Items: items}
func spec.AllSchema
  props C24
  ensures fresh(result) && *result == Schema{AllOf: schemas}
func spec.OneSchema
  props C24
  ensures fresh(result) && *result == Schema{OneOf: schemas}
func spec.AnySchema
  props C24
  ensures fresh(result) && *result == Schema{AnyOf: schemas}
func spec.NotSchema
  props C24
  ensures fresh(result) && *result == Schema{Not: schema}
func spec.Schema.WithTitle
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), Title, title)
func spec.Schema.WithDescription
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), Description, description)
func spec.Schema.WithProperties
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), Properties, schemas)
func spec.Schema.WithProperty
  props C24
  modifies *s, entries(s.Properties)
  ensures result == s
  ensures *s == upd(old(*s), Properties, s.Properties) && s.Properties != nil
  ensures imp(old(s.Properties) == nil, fresh(s.Properties)) && imp(old(s.Properties) != nil, s.Properties == old(s.Properties))
  ensures has(s.Properties, name) && s.Properties[name] == schema
  ensures forall(k, string, imp(k != name, has(s.Properties, k) == old(has(s.Properties, k)) && s.Properties[k] == old(s.Properties[k])))
func spec.Schema.WithAllOf
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), AllOf, schemas)
func spec.Schema.WithMaxProperties
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), MaxProperties, s.MaxProperties)
  ensures *s.MaxProperties == max && fresh(s.MaxProperties) && s.MaxProperties != nil
func spec.Schema.WithMinProperties
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), MinProperties, s.MinProperties)
  ensures *s.MinProperties == min && fresh(s.MinProperties) && s.MinProperties != nil
func spec.Schema.WithType
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), Type, typ, Format, format)
func spec.Schema.WithFormat
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), Format, format)
func spec.Schema.WithDefault
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), Default, defaultValue)
func spec.Schema.WithRequired
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), Required, items)
func spec.Schema.AddRequired
  props C24
  modifies *s, tail(s.Required)
  ensures result == s
  ensures *s == upd(old(*s), Required, s.Required)
  ensures len(s.Required) == old(len(s.Required)) + len(items)
  ensures forall(i, int, imp(0 <= i && i < old(len(s.Required)), s.Required[i] == old(s.Required[i])), s.Required[i])
  ensures forall(i, int, imp(0 <= i && i < len(items), s.Required[old(len(s.Required)) + i] == old(items[i])), old(items[i]))
func spec.Schema.AddToAllOf
  props C24
  modifies *s, tail(s.AllOf)
  ensures result == s
  ensures *s == upd(old(*s), AllOf, s.AllOf)
  ensures len(s.AllOf) == old(len(s.AllOf)) + len(schemas)
  ensures forall(i, int, imp(0 <= i && i < old(len(s.AllOf)), s.AllOf[i] == old(s.AllOf[i])), s.AllOf[i])
  ensures forall(i, int, imp(0 <= i && i < len(schemas), s.AllOf[old(len(s.AllOf)) + i] == old(schemas[i])), old(schemas[i]))
func spec.Schema.WithMaxLength
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), MaxLength, s.MaxLength)
  ensures *s.MaxLength == max && fresh(s.MaxLength) && s.MaxLength != nil
func spec.Schema.WithMinLength
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), MinLength, s.MinLength)
  ensures *s.MinLength == min && fresh(s.MinLength) && s.MinLength != nil
func spec.Schema.WithPattern
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), Pattern, pattern)
func spec.Schema.WithMultipleOf
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), MultipleOf, s.MultipleOf)
  ensures *s.MultipleOf == number && fresh(s.MultipleOf) && s.MultipleOf != nil
func spec.Schema.WithMaximum
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), Maximum, s.Maximum, ExclusiveMaximum, exclusive)
  ensures *s.Maximum == max && fresh(s.Maximum) && s.Maximum != nil
func spec.Schema.WithMinimum
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), Minimum, s.Minimum, ExclusiveMinimum, exclusive)
  ensures *s.Minimum == min && fresh(s.Minimum) && s.Minimum != nil
func spec.Schema.WithEnum
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), Enum, values)
func spec.Schema.WithMaxItems
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), MaxItems, s.MaxItems)
  ensures *s.MaxItems == size && fresh(s.MaxItems) && s.MaxItems != nil
func spec.Schema.WithMinItems
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), MinItems, s.MinItems)
  ensures *s.MinItems == size && fresh(s.MinItems) && s.MinItems != nil
func spec.Schema.UniqueValues
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), UniqueItems, true)
func spec.Schema.AllowDuplicates
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), UniqueItems, false)
func spec.Schema.AsReadOnly
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), ReadOnly, true)
func spec.Schema.AsWritable
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), ReadOnly, false)
func spec.Schema.WithExample
  props C24
  modifies *s
  ensures result == s
  ensures *s == upd(old(*s), Example, example)
func spec.Schema.WithExternalDocs
  props C24
  modifies *s, *s.ExternalDocs
  ensures result == s
  ensures *s == upd(old(*s), ExternalDocs, s.ExternalDocs)
  ensures imp(description == "" && url == "", s.ExternalDocs == nil)
  ensures imp(description != "" || url != "", s.ExternalDocs != nil && s.ExternalDocs.Description == description && s.ExternalDocs.URL == url)
  ensures imp((description != "" || url != "") && old(s.ExternalDocs) != nil, s.ExternalDocs == old(s.ExternalDocs))
  ensures imp(description == "" && url == "" && old(s.ExternalDocs) != nil, old(*s.ExternalDocs) == *old(s.ExternalDocs))
func spec.Schema.WithXMLName
  props C24
  modifies *s, *s.XML
  ensures result == s
  ensures *s == upd(old(*s), XML, s.XML) && s.XML != nil
  ensures imp(old(s.XML) == nil, fresh(s.XML) && *s.XML == XML{Name: name})
  ensures imp(old(s.XML) != nil, s.XML == old(s.XML) && *s.XML == upd(old(*s.XML), Name, name))
func spec.Schema.WithXMLNamespace
  props C24
  modifies *s, *s.XML
  ensures result == s
  ensures *s == upd(old(*s), XML, s.XML) && s.XML != nil
  ensures imp(old(s.XML) == nil, fresh(s.XML) && *s.XML == XML{Namespace: namespace})
  ensures imp(old(s.XML) != nil, s.XML == old(s.XML) && *s.XML == upd(old(*s.XML), Namespace, namespace))
func spec.Schema.WithXMLPrefix
  props C24
  modifies *s, *s.XML
  ensures result == s
  ensures *s == upd(old(*s), XML, s.XML) && s.XML != nil
  ensures imp(old(s.XML) == nil, fresh(s.XML) && *s.XML == XML{Prefix: prefix})
  ensures imp(old(s.XML) != nil, s.XML == old(s.XML) && *s.XML == upd(old(*s.XML), Prefix, prefix))
func spec.Schema.AsXMLAttribute
  props C24
  modifies *s, *s.XML
  ensures result == s
  ensures *s == upd(old(*s), XML, s.XML) && s.XML != nil
  ensures imp(old(s.XML) == nil, fresh(s.XML) && *s.XML == XML{Attribute: true})
  ensures imp(old(s.XML) != nil, s.XML == old(s.XML) && *s.XML == upd(old(*s.XML), Attribute, true))
func spec.Schema.AsXMLElement
  props C24
  modifies *s, *s.XML
  ensures result == s
  ensures *s == upd(old(*s), XML, s.XML) && s.XML != nil
  ensures imp(old(s.XML) == nil, fresh(s.XML) && *s.XML == XML{Attribute: false})
  ensures imp(old(s.XML) != nil, s.XML == old(s.XML) && *s.XML == upd(old(*s.XML), Attribute, false))
func spec.Schema.AsWrappedXML
  props C24
  modifies *s, *s.XML
  ensures result == s
  ensures *s == upd(old(*s), XML, s.XML) && s.XML != nil
  ensures imp(old(s.XML) == nil, fresh(s.XML) && *s.XML == XML{Wrapped: true})
  ensures imp(old(s.XML) != nil, s.XML == old(s.XML) && *s.XML == upd(old(*s.XML), Wrapped, true))
func spec.XML.WithName
  props C24
  modifies *x
  ensures result == x
  ensures *x == upd(old(*x), Name, name)
func spec.XML.WithNamespace
  props C24
  modifies *x
  ensures result == x
  ensures *x == upd(old(*x), Namespace, namespace)
func spec.XML.WithPrefix
  props C24
  modifies *x
  ensures result == x
  ensures *x == upd(old(*x), Prefix, prefix)
func spec.XML.AsAttribute
  props C24
  modifies *x
  ensures result == x
  ensures *x == upd(old(*x), Attribute, true)
func spec.XML.AsElement
  props C24
  modifies *x
  ensures result == x
  ensures *x == upd(old(*x), Attribute, false)
func spec.XML.AsWrapped
  props C24
  modifies *x
  ensures result == x
  ensures *x == upd(old(*x), Wrapped, true)
func spec.XML.AsUnwrapped
  props C24
  modifies *x
  ensures result == x
  ensures *x == upd(old(*x), Wrapped, false)
func spec.JSONResponse
  props C24
  ensures fresh(result) && *result == Response{Content: result.Content} && fresh(result.Content)
  ensures forall(k, string, has(result.Content, k) == (k == MimeJSON))
  ensures fresh(result.Content[MimeJSON]) && *result.Content[MimeJSON] == MediaType{Schema: schema}
func spec.XMLResponse
  props C24
  ensures fresh(result) && *result == Response{Content: result.Content} && fresh(result.Content)
  ensures forall(k, string, has(result.Content, k) == (k == MimeXML))
  ensures fresh(result.Content[MimeXML]) && *result.Content[MimeXML] == MediaType{Schema: schema}
func spec.TextPlainResponse
  props C24
  ensures fresh(result) && *result == Response{Content: result.Content} && fresh(result.Content)
  ensures forall(k, string, has(result.Content, k) == (k == MimeTextPlain))
  ensures fresh(result.Content[MimeTextPlain]) && *result.Content[MimeTextPlain] == MediaType{Schema: schema}
func spec.OctetStreamResponse
  props C24
  ensures fresh(result) && *result == Response{Content: result.Content} && fresh(result.Content)
  ensures forall(k, string, has(result.Content, k) == (k == MimeOctetStream))
  ensures fresh(result.Content[MimeOctetStream]) && *result.Content[MimeOctetStream] == MediaType{Schema: schema}
func spec.URLEncodedResponse
  props C24
  ensures fresh(result) && *result == Response{Content: result.Content} && fresh(result.Content)
  ensures forall(k, string, has(result.Content, k) == (k == MimeURLEncoded))
  ensures fresh(result.Content[MimeURLEncoded]) && *result.Content[MimeURLEncoded] == MediaType{Schema: schema}
func spec.FormDataResponse
  props C24
  ensures fresh(result) && *result == Response{Content: result.Content} && fresh(result.Content)
  ensures forall(k, string, has(result.Content, k) == (k == MimeFormData))
  ensures fresh(result.Content[MimeFormData]) && *result.Content[MimeFormData] == MediaType{Schema: schema}
func spec.NewResponse
  props C24
  ensures fresh(result) && *result == Response{Content: result.Content} && fresh(result.Content)
  ensures forall(k, string, has(result.Content, k) == (k == typ))
  ensures fresh(result.Content[typ]) && *result.Content[typ] == MediaType{Schema: schema}
func spec.JSONRequestBody
  props C24
  ensures fresh(result) && *result == RequestBody{Content: result.Content} && fresh(result.Content)
  ensures forall(k, string, has(result.Content, k) == (k == MimeJSON))
  ensures fresh(result.Content[MimeJSON]) && *result.Content[MimeJSON] == MediaType{Schema: schema}
func spec.XMLRequestBody
  props C24
  ensures fresh(result) && *result == RequestBody{Content: result.Content} && fresh(result.Content)
  ensures forall(k, string, has(result.Content, k) == (k == MimeXML))
  ensures fresh(result.Content[MimeXML]) && *result.Content[MimeXML] == MediaType{Schema: schema}
func spec.TextPlainRequestBody
  props C24
  ensures fresh(result) && *result == RequestBody{Content: result.Content} && fresh(result.Content)
  ensures forall(k, string, has(result.Content, k) == (k == MimeTextPlain))
  ensures fresh(result.Content[MimeTextPlain]) && *result.Content[MimeTextPlain] == MediaType{Schema: schema}
func spec.OctetStreamRequestBody
  props C24
  ensures fresh(result) && *result == RequestBody{Content: result.Content} && fresh(result.Content)
  ensures forall(k, string, has(result.Content, k) == (k == MimeOctetStream))
  ensures fresh(result.Content[MimeOctetStream]) && *result.Content[MimeOctetStream] == MediaType{Schema: schema}
func spec.URLEncodedRequestBody
  props C24
  ensures fresh(result) && *result == RequestBody{Content: result.Content} && fresh(result.Content)
  ensures forall(k, string, has(result.Content, k) == (k == MimeURLEncoded))
  ensures fresh(result.Content[MimeURLEncoded]) && *result.Content[MimeURLEncoded] == MediaType{Schema: schema}
func spec.FormDataRequestBody
  props C24
  ensures fresh(result) && *result == RequestBody{Content: result.Content} && fresh(result.Content)
  ensures forall(k, string, has(result.Content, k) == (k == MimeFormData))
  ensures fresh(result.Content[MimeFormData]) && *result.Content[MimeFormData] == MediaType{Schema: schema}
func spec.NewRequestBody
  props C24
  ensures fresh(result) && *result == RequestBody{Content: result.Content} && fresh(result.Content)
  ensures forall(k, string, has(result.Content, k) == (k == typ))
  ensures fresh(result.Content[typ]) && *result.Content[typ] == MediaType{Schema: schema}
func spec.Response.WithDescription
  props C24
  modifies *r
  ensures result == r
  ensures *r == upd(old(*r), Description, description)
func spec.Response.AddHeader
  props C24
  modifies *r, entries(r.Headers)
  ensures result == r
  ensures *r == upd(old(*r), Headers, r.Headers)
  ensures imp(old(r.Headers) != nil || header == nil, r.Headers == old(r.Headers))
  ensures imp(header != nil && old(r.Headers) == nil, fresh(r.Headers))
  ensures has(r.Headers, name) == (header != nil) && imp(header != nil, r.Headers[name] == header)
  ensures forall(k, string, imp(k != name, has(r.Headers, k) == old(has(r.Headers, k)) && r.Headers[k] == old(r.Headers[k])))
func spec.Response.RemoveHeader
  props C24
  modifies entries(r.Headers)
  ensures result == r
  ensures !has(r.Headers, name)
  ensures *r == old(*r)
  ensures forall(k, string, imp(k != name, has(r.Headers, k) == old(has(r.Headers, k)) && r.Headers[k] == old(r.Headers[k])))
func spec.Response.AddContent
  props C24
  requires r.Headers == nil || r.Headers != r.Content
  modifies *r, entries(r.Content), entries(r.Headers)
  ensures result == r
  ensures *r == upd(old(*r), Content, r.Content)
  ensures imp(old(r.Content) != nil || content == nil, r.Content == old(r.Content))
  ensures imp(content != nil && old(r.Content) == nil, fresh(r.Content))
  ensures imp(content != nil, has(r.Content, name) && r.Content[name] == content)
  ensures forall(k, string, imp(k != name, has(r.Content, k) == old(has(r.Content, k)) && r.Content[k] == old(r.Content[k])))
  ensures forall(k, string, imp(k != name || content != nil, has(r.Headers, k) == old(has(r.Headers, k)) && r.Headers[k] == old(r.Headers[k])))
  ensures imp(content == nil, !has(r.Content, name))
  ensures imp(content == nil, has(r.Headers, name) == old(has(r.Headers, name)))
func spec.Response.RemoveContent
  props C24
  modifies entries(r.Content)
  ensures result == r
  ensures !has(r.Content, name)
  ensures *r == old(*r)
  ensures forall(k, string, imp(k != name, has(r.Content, k) == old(has(r.Content, k)) && r.Content[k] == old(r.Content[k])))
func spec.Response.AddLink
  props C24
  requires r.Headers == nil || r.Headers != r.Links
  modifies *r, entries(r.Links), entries(r.Headers)
  ensures result == r
  ensures *r == upd(old(*r), Links, r.Links)
  ensures imp(old(r.Links) != nil || link == nil, r.Links == old(r.Links))
  ensures imp(link != nil && old(r.Links) == nil, fresh(r.Links))
  ensures imp(link != nil, has(r.Links, name) && r.Links[name] == link)
  ensures forall(k, string, imp(k != name, has(r.Links, k) == old(has(r.Links, k)) && r.Links[k] == old(r.Links[k])))
  ensures forall(k, string, imp(k != name || link != nil, has(r.Headers, k) == old(has(r.Headers, k)) && r.Headers[k] == old(r.Headers[k])))
  ensures imp(link == nil, !has(r.Links, name))
  ensures imp(link == nil, has(r.Headers, name) == old(has(r.Headers, name)))
func spec.Response.RemoveLink
  props C24
  modifies entries(r.Links)
  ensures result == r
  ensures !has(r.Links, name)
  ensures *r == old(*r)
  ensures forall(k, string, imp(k != name, has(r.Links, k) == old(has(r.Links, k)) && r.Links[k] == old(r.Links[k])))
func spec.QueryParam
  props C24
  ensures fresh(result) && *result == Parameter{In: InQuery, Name: name, Schema: schema}
func spec.HeaderParam
  props C24
  ensures fresh(result) && *result == Parameter{In: InHeader, Name: name, Schema: schema}
func spec.CookieParam
  props C24
  ensures fresh(result) && *result == Parameter{In: InCookie, Name: name, Schema: schema}
func spec.PathParam
  props C24
  ensures fresh(result) && *result == Parameter{In: InPath, Name: name, Schema: schema, Required: true}
func spec.Parameter.WithDescription
  props C24
  modifies *p
  ensures result == p
  ensures *p == upd(old(*p), Description, description)
func spec.Parameter.WithName
  props C24
  modifies *p
  ensures result == p
  ensures *p == upd(old(*p), Name, name)
func spec.Parameter.WithSchema
  props C24
  modifies *p
  ensures result == p
  ensures *p == upd(old(*p), Schema, schema)
func spec.Parameter.WithLocation
  props C24
  modifies *p
  ensures result == p
  ensures *p == upd(old(*p), In, in)
func spec.Parameter.AllowsEmptyValues
  props C24
  modifies *p
  ensures result == p
  ensures *p == upd(old(*p), AllowEmptyValue, true)
func spec.Parameter.NoEmptyValues
  props C24
  modifies *p
  ensures result == p
  ensures *p == upd(old(*p), AllowEmptyValue, false)
func spec.Parameter.AsOptional
  props C24
  modifies *p
  ensures result == p
  ensures *p == upd(old(*p), Required, false)
func spec.Header.WithDescription
  props C24
  modifies *h
  ensures result == h
  ensures *h == upd(old(*h), Description, description)
func spec.Header.AllowsEmptyValues
  props C24
  modifies *h
  ensures result == h
  ensures *h == upd(old(*h), AllowEmptyValue, true)
func spec.Header.NoEmptyValues
  props C24
  modifies *h
  ensures result == h
  ensures *h == upd(old(*h), AllowEmptyValue, false)
func spec.Header.AsOptional
  props C24
  modifies *h
  ensures result == h
  ensures *h == upd(old(*h), Required, false)
func spec.BasicAuth
  props C24
  ensures fresh(result) && *result == SecurityScheme{Type: SecurityHTTP, Scheme: "basic"}
func spec.BearerAuth
  props C24
  ensures fresh(result) && *result == SecurityScheme{Type: SecurityHTTP, Scheme: "bearer", BearerFormat: bearerFormat}
func spec.APIKeyAuth
  props C24
  ensures fresh(result) && *result == SecurityScheme{Type: SecurityAPIKey, Name: fieldName, In: valueSource}
func spec.OAuth2Implicit
  props C24
  ensures fresh(result) && *result == SecurityScheme{Type: SecurityOAuth2, Flows: result.Flows}
  ensures fresh(result.Flows) && *result.Flows == OAuthFlows{Implicit: result.Flows.Implicit}
  ensures fresh(result.Flows.Implicit) && *result.Flows.Implicit == OAuthFlow{AuthorizationURL: authorizationURL}
func spec.OAuth2Password
  props C24
  ensures fresh(result) && *result == SecurityScheme{Type: SecurityOAuth2, Flows: result.Flows}
  ensures fresh(result.Flows) && *result.Flows == OAuthFlows{Password: result.Flows.Password}
  ensures fresh(result.Flows.Password) && *result.Flows.Password == OAuthFlow{TokenURL: tokenURL}
func spec.OAuth2AuthorizationCode
  props C24
  ensures fresh(result) && *result == SecurityScheme{Type: SecurityOAuth2, Flows: result.Flows}
  ensures fresh(result.Flows) && *result.Flows == OAuthFlows{AuthorizationCode: result.Flows.AuthorizationCode}
  ensures fresh(result.Flows.AuthorizationCode) && *result.Flows.AuthorizationCode == OAuthFlow{TokenURL: tokenURL}
func spec.OAuth2ClientCredentials
  props C24
  ensures fresh(result) && *result == SecurityScheme{Type: SecurityOAuth2, Flows: result.Flows}
  ensures fresh(result.Flows) && *result.Flows == OAuthFlows{ClientCredentials: result.Flows.ClientCredentials}
  ensures fresh(result.Flows.ClientCredentials) && *result.Flows.ClientCredentials == OAuthFlow{AuthorizationURL: authorizationURL, TokenURL: tokenURL}
