pub enum CjTextFormat { Png, Jpg }
pub enum CjWrapMode { None, Wrap, Mirror, Clamp, Border }
pub enum CjTextType { Unknown, Specific, Typical }
%%fbenum fb/header_generated.rs TextureFormat
%%fbenum fb/header_generated.rs WrapMode
%%fbenum fb/header_generated.rs TextureType
pub open spec fn format_of(t: CjTextFormat) -> TextureFormat { match t { CjTextFormat::Png => TextureFormat::PNG, CjTextFormat::Jpg => TextureFormat::JPG } }
pub open spec fn wrap_of(t: CjWrapMode) -> WrapMode { match t { CjWrapMode::None => WrapMode::None, CjWrapMode::Wrap => WrapMode::Wrap, CjWrapMode::Mirror => WrapMode::Mirror, CjWrapMode::Clamp => WrapMode::Clamp, CjWrapMode::Border => WrapMode::Border } }
pub open spec fn texture_of(t: CjTextType) -> TextureType { match t { CjTextType::Unknown => TextureType::Unknown, CjTextType::Specific => TextureType::Specific, CjTextType::Typical => TextureType::Typical } }
