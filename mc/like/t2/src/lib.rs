// generated by tools/gen_like.py
use likesut::*;
pub fn all(v: &mut Vec<Ty>) {
    v.push(Ty::of::<(((Tri,bool,),Tri,),(Option<bool>,[Tri;2],),((Tri,bool,),Tri,),)>("(((Tri,bool,),Tri,),(Option<bool>,[Tri;2],),((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<(((Tri,bool,),Tri,),Option<[Never;1]>,)>("(((Tri,bool,),Tri,),Option<[Never;1]>,)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),)>("((),(),(),(),(),)"));
    v.push(Ty::of::<((),(),Five,)>("((),(),Five,)"));
    v.push(Ty::of::<((),(),Two,Tri,)>("((),(),Two,Tri,)"));
    v.push(Ty::of::<((),Five,Tri,)>("((),Five,Tri,)"));
    v.push(Ty::of::<((),Four,)>("((),Four,)"));
    v.push(Ty::of::<((),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)>("((),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)"));
    v.push(Ty::of::<((),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)>("((),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)"));
    v.push(Ty::of::<((),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)>("((),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)"));
    v.push(Ty::of::<((),Option<Never>,(),)>("((),Option<Never>,(),)"));
    v.push(Ty::of::<((),Option<bool>,)>("((),Option<bool>,)"));
    v.push(Ty::of::<((),Tri,(),Tri,)>("((),Tri,(),Tri,)"));
    v.push(Ty::of::<((),Tri,Never,)>("((),Tri,Never,)"));
    v.push(Ty::of::<((),Two,(),(),)>("((),Two,(),(),)"));
    v.push(Ty::of::<((),Two,Two,Two,)>("((),Two,Two,Two,)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,)>("((),Wide,(),Two,(),Wide,(),Two,)"));
    v.push(Ty::of::<((),bool,Never,)>("((),bool,Never,)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),(Option<bool>,[Tri;2],),)>("((Option<bool>,[Tri;2],),(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),Result<Option<Never>,Option<bool>>,)>("((Option<bool>,[Tri;2],),Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),((Tri,bool,),Tri,),(Result<Never,Never>,bool,),)>("((Result<Never,Never>,bool,),((Tri,bool,),Tri,),(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),Option<[Never;0]>,(Result<Never,Never>,bool,),)>("((Result<Never,Never>,bool,),Option<[Never;0]>,(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),Result<Option<Never>,Option<bool>>,(Result<Never,Never>,bool,),)>("((Result<Never,Never>,bool,),Result<Option<Never>,Option<bool>>,(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),[(bool,Tri,);2],)>("((Result<Never,Never>,bool,),[(bool,Tri,);2],)"));
    v.push(Ty::of::<((Tri,),)>("((Tri,),)"));
    v.push(Ty::of::<((Tri,),Option<Never>,(Tri,),)>("((Tri,),Option<Never>,(Tri,),)"));
    v.push(Ty::of::<((Tri,),Option<Tri>,)>("((Tri,),Option<Tri>,)"));
    v.push(Ty::of::<((Tri,),Result<bool,()>,)>("((Tri,),Result<bool,()>,)"));
    v.push(Ty::of::<((bool,Tri,),(Tri,),)>("((bool,Tri,),(Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),(bool,Tri,),)>("((bool,Tri,),(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),Result<Tri,bool>,(bool,Tri,),)>("((bool,Tri,),Result<Tri,bool>,(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),Tri,(bool,Tri,),)>("((bool,Tri,),Tri,(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),[Tri;0],)>("((bool,Tri,),[Tri;0],)"));
    v.push(Ty::of::<(D17,Two,)>("(D17,Two,)"));
    v.push(Ty::of::<(Five,(),(),)>("(Five,(),(),)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)"));
    v.push(Ty::of::<(Five,Five,Tri,)>("(Five,Five,Tri,)"));
    v.push(Ty::of::<(Five,One,)>("(Five,One,)"));
    v.push(Ty::of::<(Five,Tri,Five,)>("(Five,Tri,Five,)"));
    v.push(Ty::of::<(Five,bool,bool,)>("(Five,bool,bool,)"));
    v.push(Ty::of::<(Four,Four,)>("(Four,Four,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)"));
    v.push(Ty::of::<(H62,Never,)>("(H62,Never,)"));
    v.push(Ty::of::<(H63,One,)>("(H63,One,)"));
    v.push(Ty::of::<(Never,Five,Five,)>("(Never,Five,Five,)"));
    v.push(Ty::of::<(Never,Never,bool,)>("(Never,Never,bool,)"));
    v.push(Ty::of::<(Never,One,)>("(Never,One,)"));
    v.push(Ty::of::<(Never,Result<bool,()>,Never,)>("(Never,Result<bool,()>,Never,)"));
    v.push(Ty::of::<(Never,Tri,(),)>("(Never,Tri,(),)"));
    v.push(Ty::of::<(Never,[Tri;0],)>("(Never,[Tri;0],)"));
    v.push(Ty::of::<(Never,bool,(),)>("(Never,bool,(),)"));
    v.push(Ty::of::<(One,)>("(One,)"));
    v.push(Ty::of::<(One,H62,)>("(One,H62,)"));
    v.push(Ty::of::<(One,Two,Tri,(),bool,)>("(One,Two,Tri,(),bool,)"));
    v.push(Ty::of::<(One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)>("(One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)"));
    v.push(Ty::of::<(Option<()>,(),)>("(Option<()>,(),)"));
    v.push(Ty::of::<(Option<()>,Option<()>,Option<()>,)>("(Option<()>,Option<()>,Option<()>,)"));
    v.push(Ty::of::<(Option<()>,[Tri;0],Option<()>,)>("(Option<()>,[Tri;0],Option<()>,)"));
    v.push(Ty::of::<(Option<()>,[Tri;3],)>("(Option<()>,[Tri;3],)"));
    v.push(Ty::of::<(Option<Never>,Option<Never>,Option<Never>,)>("(Option<Never>,Option<Never>,Option<Never>,)"));
    v.push(Ty::of::<(Option<Never>,Option<bool>,)>("(Option<Never>,Option<bool>,)"));
    v.push(Ty::of::<(Option<Never>,Result<Never,Tri>,Option<Never>,)>("(Option<Never>,Result<Never,Tri>,Option<Never>,)"));
    v.push(Ty::of::<(Option<Never>,[Tri;3],Option<Never>,)>("(Option<Never>,[Tri;3],Option<Never>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,(Option<bool>,[Tri;2],),Option<Result<bool,Tri>>,)>("(Option<Result<bool,Tri>>,(Option<bool>,[Tri;2],),Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,Result<Option<Never>,Option<bool>>,Option<Result<bool,Tri>>,)>("(Option<Result<bool,Tri>>,Result<Option<Never>,Option<bool>>,Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Option<Tri>,(bool,Tri,),Option<Tri>,)>("(Option<Tri>,(bool,Tri,),Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,Never,)>("(Option<Tri>,Never,)"));
    v.push(Ty::of::<(Option<Tri>,Never,Option<Tri>,)>("(Option<Tri>,Never,Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,Result<Tri,bool>,Option<Tri>,)>("(Option<Tri>,Result<Tri,bool>,Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,Tri,Option<Tri>,)>("(Option<Tri>,Tri,Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,[bool;2],)>("(Option<Tri>,[bool;2],)"));
    v.push(Ty::of::<(Option<[Never;0]>,Result<Option<Never>,Option<bool>>,)>("(Option<[Never;0]>,Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,Result<Option<Never>,Option<bool>>,Option<[Never;1]>,)>("(Option<[Never;1]>,Result<Option<Never>,Option<bool>>,Option<[Never;1]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,[(bool,Tri,);2],Option<[Never;1]>,)>("(Option<[Never;1]>,[(bool,Tri,);2],Option<[Never;1]>,)"));
    v.push(Ty::of::<(Option<bool>,(),)>("(Option<bool>,(),)"));
    v.push(Ty::of::<(Option<bool>,(Tri,),)>("(Option<bool>,(Tri,),)"));
    v.push(Ty::of::<(Option<bool>,Result<bool,()>,)>("(Option<bool>,Result<bool,()>,)"));
    v.push(Ty::of::<(Option<bool>,[Tri;3],)>("(Option<bool>,[Tri;3],)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,Option<[Never;0]>,Result<(Tri,bool,),[bool;3]>,)>("(Result<(Tri,bool,),[bool;3]>,Option<[Never;0]>,Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,Result<Option<Never>,Option<bool>>,)>("(Result<(Tri,bool,),[bool;3]>,Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,(Tri,),)>("(Result<Never,Tri>,(Tri,),)"));
    v.push(Ty::of::<(Result<Never,Tri>,Option<()>,)>("(Result<Never,Tri>,Option<()>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Option<()>,Result<Never,Tri>,)>("(Result<Never,Tri>,Option<()>,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,bool,)>("(Result<Never,Tri>,bool,)"));
    v.push(Ty::of::<(Result<Never,Tri>,bool,Result<Never,Tri>,)>("(Result<Never,Tri>,bool,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,(Option<bool>,[Tri;2],),Result<Option<Never>,Option<bool>>,)>("(Result<Option<Never>,Option<bool>>,(Option<bool>,[Tri;2],),Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,(Result<Never,Never>,bool,),Result<Option<Never>,Option<bool>>,)>("(Result<Option<Never>,Option<bool>>,(Result<Never,Never>,bool,),Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,Result<Option<Never>,Option<bool>>,Result<Option<Never>,Option<bool>>,)>("(Result<Option<Never>,Option<bool>>,Result<Option<Never>,Option<bool>>,Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,Never,Result<Tri,bool>,)>("(Result<Tri,bool>,Never,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,Option<Tri>,)>("(Result<Tri,bool>,Option<Tri>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,Result<Tri,bool>,)>("(Result<Tri,bool>,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,[bool;2],Result<Tri,bool>,)>("(Result<Tri,bool>,[bool;2],Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<bool,()>,Never,)>("(Result<bool,()>,Never,)"));
    v.push(Ty::of::<(Result<bool,()>,Option<bool>,Result<bool,()>,)>("(Result<bool,()>,Option<bool>,Result<bool,()>,)"));
    v.push(Ty::of::<(Result<bool,()>,Result<bool,()>,Result<bool,()>,)>("(Result<bool,()>,Result<bool,()>,Result<bool,()>,)"));
    v.push(Ty::of::<(Result<bool,()>,[bool;2],)>("(Result<bool,()>,[bool;2],)"));
    v.push(Ty::of::<(Tri,(),(),Two,)>("(Tri,(),(),Two,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)"));
    v.push(Ty::of::<(Tri,(bool,Tri,),)>("(Tri,(bool,Tri,),)"));
    v.push(Ty::of::<(Tri,D17,)>("(Tri,D17,)"));
    v.push(Ty::of::<(Tri,Five,(),)>("(Tri,Five,(),)"));
    v.push(Ty::of::<(Tri,Never,Tri,)>("(Tri,Never,Tri,)"));
    v.push(Ty::of::<(Tri,Option<Tri>,)>("(Tri,Option<Tri>,)"));
    v.push(Ty::of::<(Tri,Result<bool,()>,)>("(Tri,Result<bool,()>,)"));
    v.push(Ty::of::<(Tri,Tri,Tri,Tri,)>("(Tri,Tri,Tri,Tri,)"));
    v.push(Ty::of::<(Tri,Two,Tri,(),)>("(Tri,Two,Tri,(),)"));
    v.push(Ty::of::<(Tri,Two,Tri,Two,Tri,)>("(Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Tri,[bool;2],Tri,)>("(Tri,[bool;2],Tri,)"));
    v.push(Ty::of::<(Tri,bool,)>("(Tri,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Two,(),(),Two,)>("(Two,(),(),Two,)"));
    v.push(Ty::of::<(Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)>("(Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)"));
    v.push(Ty::of::<(Two,)>("(Two,)"));
    v.push(Ty::of::<(Two,Tri,(),Tri,)>("(Two,Tri,(),Tri,)"));
    v.push(Ty::of::<(Two,Tri,)>("(Two,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Two,(),(),)>("(Two,Two,(),(),)"));
    v.push(Ty::of::<(Two,Two,Two,Two,)>("(Two,Two,Two,Two,)"));
    v.push(Ty::of::<(Wide,H62,)>("(Wide,H62,)"));
    v.push(Ty::of::<([(bool,Tri,);2],(Option<bool>,[Tri;2],),)>("([(bool,Tri,);2],(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<([(bool,Tri,);2],(Result<Never,Never>,bool,),[(bool,Tri,);2],)>("([(bool,Tri,);2],(Result<Never,Never>,bool,),[(bool,Tri,);2],)"));
    v.push(Ty::of::<([(bool,Tri,);2],Option<[Never;0]>,[(bool,Tri,);2],)>("([(bool,Tri,);2],Option<[Never;0]>,[(bool,Tri,);2],)"));
    v.push(Ty::of::<([(bool,Tri,);2],[(bool,Tri,);2],[(bool,Tri,);2],)>("([(bool,Tri,);2],[(bool,Tri,);2],[(bool,Tri,);2],)"));
    v.push(Ty::of::<([Option<()>;4],(Option<bool>,[Tri;2],),[Option<()>;4],)>("([Option<()>;4],(Option<bool>,[Tri;2],),[Option<()>;4],)"));
    v.push(Ty::of::<([Option<()>;4],Option<[Never;0]>,[Option<()>;4],)>("([Option<()>;4],Option<[Never;0]>,[Option<()>;4],)"));
    v.push(Ty::of::<([Option<()>;4],Option<[Never;1]>,)>("([Option<()>;4],Option<[Never;1]>,)"));
    v.push(Ty::of::<([Tri;0],(Tri,),[Tri;0],)>("([Tri;0],(Tri,),[Tri;0],)"));
    v.push(Ty::of::<([Tri;0],Option<Never>,[Tri;0],)>("([Tri;0],Option<Never>,[Tri;0],)"));
    v.push(Ty::of::<([Tri;0],Tri,)>("([Tri;0],Tri,)"));
    v.push(Ty::of::<([Tri;0],[Tri;3],[Tri;0],)>("([Tri;0],[Tri;3],[Tri;0],)"));
    v.push(Ty::of::<([Tri;3],Option<Never>,)>("([Tri;3],Option<Never>,)"));
    v.push(Ty::of::<([Tri;3],Option<Tri>,[Tri;3],)>("([Tri;3],Option<Tri>,[Tri;3],)"));
    v.push(Ty::of::<([Tri;3],Result<Tri,bool>,[Tri;3],)>("([Tri;3],Result<Tri,bool>,[Tri;3],)"));
    v.push(Ty::of::<([Tri;3],[bool;2],[Tri;3],)>("([Tri;3],[bool;2],[Tri;3],)"));
    v.push(Ty::of::<([bool;2],(),)>("([bool;2],(),)"));
    v.push(Ty::of::<([bool;2],Option<bool>,[bool;2],)>("([bool;2],Option<bool>,[bool;2],)"));
    v.push(Ty::of::<([bool;2],[Tri;3],)>("([bool;2],[Tri;3],)"));
    v.push(Ty::of::<([bool;2],bool,[bool;2],)>("([bool;2],bool,[bool;2],)"));
    v.push(Ty::of::<(bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)>("(bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)"));
    v.push(Ty::of::<(bool,(bool,Tri,),)>("(bool,(bool,Tri,),)"));
    v.push(Ty::of::<(bool,(bool,Tri,),bool,)>("(bool,(bool,Tri,),bool,)"));
    v.push(Ty::of::<(bool,Five,Five,)>("(bool,Five,Five,)"));
    v.push(Ty::of::<(bool,Never,)>("(bool,Never,)"));
    v.push(Ty::of::<(bool,Never,bool,)>("(bool,Never,bool,)"));
    v.push(Ty::of::<(bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)>("(bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)"));
    v.push(Ty::of::<(bool,Tri,(),)>("(bool,Tri,(),)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Wide,)>("(bool,Wide,)"));
    v.push(Ty::of::<(bool,bool,(),)>("(bool,bool,(),)"));
    v.push(Ty::of::<(bool,bool,bool,Never,bool,bool,)>("(bool,bool,bool,Never,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<H63>("H63"));
    v.push(Ty::of::<Option<H63>>("Option<H63>"));
    v.push(Ty::of::<Option<Option<H63>>>("Option<Option<H63>>"));
    v.push(Ty::of::<Option<Option<Option<H63>>>>("Option<Option<Option<H63>>>"));
    v.push(Ty::of::<Option<Option<Result<bool,Tri>>>>("Option<Option<Result<bool,Tri>>>"));
    v.push(Ty::of::<Option<Option<Two>>>("Option<Option<Two>>"));
    v.push(Ty::of::<Option<Result<((Tri,bool,),Tri,),Option<Option<[Never;0]>>>>>("Option<Result<((Tri,bool,),Tri,),Option<Option<[Never;0]>>>>"));
    v.push(Ty::of::<Option<Result<(Option<bool>,[Tri;2],),Option<Result<(Tri,bool,),[bool;3]>>>>>("Option<Result<(Option<bool>,[Tri;2],),Option<Result<(Tri,bool,),[bool;3]>>>>"));
    v.push(Ty::of::<Option<Result<(Option<bool>,[Tri;2],),Option<[Option<()>;4]>>>>("Option<Result<(Option<bool>,[Tri;2],),Option<[Option<()>;4]>>>"));
    v.push(Ty::of::<Option<Result<(Result<Never,Never>,bool,),Option<((Tri,bool,),Tri,)>>>>("Option<Result<(Result<Never,Never>,bool,),Option<((Tri,bool,),Tri,)>>>"));
    v.push(Ty::of::<Option<Result<(Result<Never,Never>,bool,),Option<Option<[Never;1]>>>>>("Option<Result<(Result<Never,Never>,bool,),Option<Option<[Never;1]>>>>"));
    v.push(Ty::of::<Option<Result<Option<Result<bool,Tri>>,Option<Option<[Never;1]>>>>>("Option<Result<Option<Result<bool,Tri>>,Option<Option<[Never;1]>>>>"));
    v.push(Ty::of::<Option<Result<Option<Result<bool,Tri>>,Option<Result<(Tri,bool,),[bool;3]>>>>>("Option<Result<Option<Result<bool,Tri>>,Option<Result<(Tri,bool,),[bool;3]>>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;1]>,Option<[Option<()>;4]>>>>("Option<Result<Option<[Never;1]>,Option<[Option<()>;4]>>>"));
    v.push(Ty::of::<Option<Result<Result<(Tri,bool,),[bool;3]>,Option<(Result<Never,Never>,bool,)>>>>("Option<Result<Result<(Tri,bool,),[bool;3]>,Option<(Result<Never,Never>,bool,)>>>"));
    v.push(Ty::of::<Option<Result<Result<(Tri,bool,),[bool;3]>,Option<Option<[Never;0]>>>>>("Option<Result<Result<(Tri,bool,),[bool;3]>,Option<Option<[Never;0]>>>>"));
    v.push(Ty::of::<Option<Result<Result<Option<Never>,Option<bool>>,Option<Option<Result<bool,Tri>>>>>>("Option<Result<Result<Option<Never>,Option<bool>>,Option<Option<Result<bool,Tri>>>>>"));
    v.push(Ty::of::<Option<Result<Result<Option<Never>,Option<bool>>,Option<[Option<()>;4]>>>>("Option<Result<Result<Option<Never>,Option<bool>>,Option<[Option<()>;4]>>>"));
    v.push(Ty::of::<Option<Result<[(bool,Tri,);2],Option<Result<(Tri,bool,),[bool;3]>>>>>("Option<Result<[(bool,Tri,);2],Option<Result<(Tri,bool,),[bool;3]>>>>"));
    v.push(Ty::of::<Option<Result<[(bool,Tri,);2],Option<[(bool,Tri,);2]>>>>("Option<Result<[(bool,Tri,);2],Option<[(bool,Tri,);2]>>>"));
    v.push(Ty::of::<Option<Result<[Option<()>;4],Option<Result<(Tri,bool,),[bool;3]>>>>>("Option<Result<[Option<()>;4],Option<Result<(Tri,bool,),[bool;3]>>>>"));
    v.push(Ty::of::<Option<[Option<()>;4]>>("Option<[Option<()>;4]>"));
    v.push(Ty::of::<Result<((Tri,bool,),Tri,),((Tri,bool,),Tri,)>>("Result<((Tri,bool,),Tri,),((Tri,bool,),Tri,)>"));
    v.push(Ty::of::<Result<(),Five>>("Result<(),Five>"));
    v.push(Ty::of::<Result<(),Option<Tri>>>("Result<(),Option<Tri>>"));
    v.push(Ty::of::<Result<(),bool>>("Result<(),bool>"));
    v.push(Ty::of::<Result<(Option<bool>,[Tri;2],),Option<[Never;0]>>>("Result<(Option<bool>,[Tri;2],),Option<[Never;0]>>"));
    v.push(Ty::of::<Result<(Result<Never,Never>,bool,),Result<Option<Never>,Option<bool>>>>("Result<(Result<Never,Never>,bool,),Result<Option<Never>,Option<bool>>>"));
    v.push(Ty::of::<Result<(Tri,),()>>("Result<(Tri,),()>"));
    v.push(Ty::of::<Result<(Tri,),[Tri;3]>>("Result<(Tri,),[Tri;3]>"));
    v.push(Ty::of::<Result<(bool,Tri,),Never>>("Result<(bool,Tri,),Never>"));
    v.push(Ty::of::<Result<(bool,Tri,),Result<Never,Tri>>>("Result<(bool,Tri,),Result<Never,Tri>>"));
    v.push(Ty::of::<Result<(bool,Tri,),[bool;2]>>("Result<(bool,Tri,),[bool;2]>"));
    v.push(Ty::of::<Result<D17,One>>("Result<D17,One>"));
    v.push(Ty::of::<Result<Five,Four>>("Result<Five,Four>"));
    v.push(Ty::of::<Result<Five,bool>>("Result<Five,bool>"));
    v.push(Ty::of::<Result<Four,One>>("Result<Four,One>"));
    v.push(Ty::of::<Result<H62,Four>>("Result<H62,Four>"));
    v.push(Ty::of::<Result<H62,bool>>("Result<H62,bool>"));
    v.push(Ty::of::<Result<H63,Tri>>("Result<H63,Tri>"));
    v.push(Ty::of::<Result<Never,H62>>("Result<Never,H62>"));
    v.push(Ty::of::<Result<Never,Tri>>("Result<Never,Tri>"));
    v.push(Ty::of::<Result<One,D17>>("Result<One,D17>"));
    v.push(Ty::of::<Result<One,Two>>("Result<One,Two>"));
    v.push(Ty::of::<Result<Option<()>,Option<bool>>>("Result<Option<()>,Option<bool>>"));
    v.push(Ty::of::<Result<Option<()>,Result<Never,Tri>>>("Result<Option<()>,Result<Never,Tri>>"));
    v.push(Ty::of::<Result<Option<Never>,Option<()>>>("Result<Option<Never>,Option<()>>"));
    v.push(Ty::of::<Result<Option<Never>,bool>>("Result<Option<Never>,bool>"));
    v.push(Ty::of::<Result<Option<Result<bool,Tri>>,Option<[Never;1]>>>("Result<Option<Result<bool,Tri>>,Option<[Never;1]>>"));
    v.push(Ty::of::<Result<Option<Tri>,[Tri;0]>>("Result<Option<Tri>,[Tri;0]>"));
    v.push(Ty::of::<Result<Option<[Never;0]>,(Option<bool>,[Tri;2],)>>("Result<Option<[Never;0]>,(Option<bool>,[Tri;2],)>"));
    v.push(Ty::of::<Result<Option<[Never;1]>,Option<Result<bool,Tri>>>>("Result<Option<[Never;1]>,Option<Result<bool,Tri>>>"));
    v.push(Ty::of::<Result<Option<[Never;1]>,Option<[Never;1]>>>("Result<Option<[Never;1]>,Option<[Never;1]>>"));
    v.push(Ty::of::<Result<Option<[Never;1]>,Result<(Tri,bool,),[bool;3]>>>("Result<Option<[Never;1]>,Result<(Tri,bool,),[bool;3]>>"));
    v.push(Ty::of::<Result<Option<bool>,Tri>>("Result<Option<bool>,Tri>"));
    v.push(Ty::of::<Result<Result<(Tri,bool,),[bool;3]>,(Option<bool>,[Tri;2],)>>("Result<Result<(Tri,bool,),[bool;3]>,(Option<bool>,[Tri;2],)>"));
    v.push(Ty::of::<Result<Result<(Tri,bool,),[bool;3]>,(Result<Never,Never>,bool,)>>("Result<Result<(Tri,bool,),[bool;3]>,(Result<Never,Never>,bool,)>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,Option<()>>>("Result<Result<Never,Tri>,Option<()>>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,Result<bool,()>>>("Result<Result<Never,Tri>,Result<bool,()>>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,bool>>("Result<Result<Never,Tri>,bool>"));
    v.push(Ty::of::<Result<Result<Option<Never>,Option<bool>>,(Result<Never,Never>,bool,)>>("Result<Result<Option<Never>,Option<bool>>,(Result<Never,Never>,bool,)>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,Option<Tri>>>("Result<Result<Tri,bool>,Option<Tri>>"));
    v.push(Ty::of::<Result<Result<bool,()>,(bool,Tri,)>>("Result<Result<bool,()>,(bool,Tri,)>"));
    v.push(Ty::of::<Result<Result<bool,()>,Never>>("Result<Result<bool,()>,Never>"));
    v.push(Ty::of::<Result<Result<bool,()>,Result<Never,Tri>>>("Result<Result<bool,()>,Result<Never,Tri>>"));
    v.push(Ty::of::<Result<Result<bool,()>,[bool;2]>>("Result<Result<bool,()>,[bool;2]>"));
    v.push(Ty::of::<Result<Tri,Four>>("Result<Tri,Four>"));
    v.push(Ty::of::<Result<Tri,Option<bool>>>("Result<Tri,Option<bool>>"));
    v.push(Ty::of::<Result<Two,()>>("Result<Two,()>"));
    v.push(Ty::of::<Result<Two,Tri>>("Result<Two,Tri>"));
    v.push(Ty::of::<Result<Wide,H62>>("Result<Wide,H62>"));
    v.push(Ty::of::<Result<[Option<()>;4],Option<[Never;0]>>>("Result<[Option<()>;4],Option<[Never;0]>>"));
    v.push(Ty::of::<Result<[Option<()>;4],[(bool,Tri,);2]>>("Result<[Option<()>;4],[(bool,Tri,);2]>"));
    v.push(Ty::of::<Result<[Tri;0],(Tri,)>>("Result<[Tri;0],(Tri,)>"));
    v.push(Ty::of::<Result<[Tri;0],Option<bool>>>("Result<[Tri;0],Option<bool>>"));
    v.push(Ty::of::<Result<[Tri;3],Option<()>>>("Result<[Tri;3],Option<()>>"));
    v.push(Ty::of::<Result<[Tri;3],bool>>("Result<[Tri;3],bool>"));
    v.push(Ty::of::<Result<[bool;2],(Tri,)>>("Result<[bool;2],(Tri,)>"));
    v.push(Ty::of::<Result<[bool;2],[Tri;0]>>("Result<[bool;2],[Tri;0]>"));
    v.push(Ty::of::<Result<bool,H62>>("Result<bool,H62>"));
    v.push(Ty::of::<Result<bool,Tri>>("Result<bool,Tri>"));
    v.push(Ty::of::<[(((Tri,bool,),Tri,),((Tri,bool,),Tri,),);2]>("[(((Tri,bool,),Tri,),((Tri,bool,),Tri,),);2]"));
    v.push(Ty::of::<[((Option<bool>,[Tri;2],),((Tri,bool,),Tri,),);2]>("[((Option<bool>,[Tri;2],),((Tri,bool,),Tri,),);2]"));
    v.push(Ty::of::<[((Option<bool>,[Tri;2],),(Option<bool>,[Tri;2],),);2]>("[((Option<bool>,[Tri;2],),(Option<bool>,[Tri;2],),);2]"));
    v.push(Ty::of::<[((Result<Never,Never>,bool,),Option<[Never;1]>,);2]>("[((Result<Never,Never>,bool,),Option<[Never;1]>,);2]"));
    v.push(Ty::of::<[((Result<Never,Never>,bool,),[(bool,Tri,);2],);2]>("[((Result<Never,Never>,bool,),[(bool,Tri,);2],);2]"));
    v.push(Ty::of::<[((Tri,bool,),Tri,);2]>("[((Tri,bool,),Tri,);2]"));
    v.push(Ty::of::<[();0]>("[();0]"));
    v.push(Ty::of::<[();17]>("[();17]"));
    v.push(Ty::of::<[();24]>("[();24]"));
    v.push(Ty::of::<[();31]>("[();31]"));
    v.push(Ty::of::<[();9]>("[();9]"));
    v.push(Ty::of::<[(Option<[Never;0]>,Option<Result<bool,Tri>>,);2]>("[(Option<[Never;0]>,Option<Result<bool,Tri>>,);2]"));
    v.push(Ty::of::<[(Option<[Never;0]>,Option<[Never;0]>,);2]>("[(Option<[Never;0]>,Option<[Never;0]>,);2]"));
    v.push(Ty::of::<[(Result<(Tri,bool,),[bool;3]>,Option<Result<bool,Tri>>,);2]>("[(Result<(Tri,bool,),[bool;3]>,Option<Result<bool,Tri>>,);2]"));
    v.push(Ty::of::<[(Result<(Tri,bool,),[bool;3]>,Option<[Never;0]>,);2]>("[(Result<(Tri,bool,),[bool;3]>,Option<[Never;0]>,);2]"));
    v.push(Ty::of::<[(Result<Option<Never>,Option<bool>>,Option<Result<bool,Tri>>,);2]>("[(Result<Option<Never>,Option<bool>>,Option<Result<bool,Tri>>,);2]"));
    v.push(Ty::of::<[(Result<Option<Never>,Option<bool>>,[Option<()>;4],);2]>("[(Result<Option<Never>,Option<bool>>,[Option<()>;4],);2]"));
    v.push(Ty::of::<[(Tri,);1]>("[(Tri,);1]"));
    v.push(Ty::of::<[([Option<()>;4],Option<[Never;0]>,);2]>("[([Option<()>;4],Option<[Never;0]>,);2]"));
    v.push(Ty::of::<[([Option<()>;4],Result<(Tri,bool,),[bool;3]>,);2]>("[([Option<()>;4],Result<(Tri,bool,),[bool;3]>,);2]"));
    v.push(Ty::of::<[D17;1]>("[D17;1]"));
    v.push(Ty::of::<[D17;9]>("[D17;9]"));
    v.push(Ty::of::<[Five;16]>("[Five;16]"));
    v.push(Ty::of::<[Five;23]>("[Five;23]"));
    v.push(Ty::of::<[Five;5]>("[Five;5]"));
    v.push(Ty::of::<[Four;12]>("[Four;12]"));
    v.push(Ty::of::<[Four;1]>("[Four;1]"));
    v.push(Ty::of::<[Four;27]>("[Four;27]"));
    v.push(Ty::of::<[Four;5]>("[Four;5]"));
    v.push(Ty::of::<[H63;1]>("[H63;1]"));
    v.push(Ty::of::<[Never;16]>("[Never;16]"));
    v.push(Ty::of::<[Never;23]>("[Never;23]"));
    v.push(Ty::of::<[Never;30]>("[Never;30]"));
    v.push(Ty::of::<[Never;8]>("[Never;8]"));
    v.push(Ty::of::<[One;15]>("[One;15]"));
    v.push(Ty::of::<[One;22]>("[One;22]"));
    v.push(Ty::of::<[One;2]>("[One;2]"));
    v.push(Ty::of::<[One;7]>("[One;7]"));
    v.push(Ty::of::<[Option<Never>;1]>("[Option<Never>;1]"));
    v.push(Ty::of::<[Option<[Never;0]>;3]>("[Option<[Never;0]>;3]"));
    v.push(Ty::of::<[Result<Never,Tri>;3]>("[Result<Never,Tri>;3]"));
    v.push(Ty::of::<[Result<bool,()>;1]>("[Result<bool,()>;1]"));
    v.push(Ty::of::<[Tri;10]>("[Tri;10]"));
    v.push(Ty::of::<[Tri;18]>("[Tri;18]"));
    v.push(Ty::of::<[Tri;25]>("[Tri;25]"));
    v.push(Ty::of::<[Tri;32]>("[Tri;32]"));
    v.push(Ty::of::<[Two;0]>("[Two;0]"));
    v.push(Ty::of::<[Two;17]>("[Two;17]"));
    v.push(Ty::of::<[Two;24]>("[Two;24]"));
    v.push(Ty::of::<[Two;31]>("[Two;31]"));
    v.push(Ty::of::<[Two;9]>("[Two;9]"));
    v.push(Ty::of::<[Wide;16]>("[Wide;16]"));
    v.push(Ty::of::<[Wide;23]>("[Wide;23]"));
    v.push(Ty::of::<[Wide;30]>("[Wide;30]"));
    v.push(Ty::of::<[Wide;8]>("[Wide;8]"));
    v.push(Ty::of::<[[(bool,Tri,);2];3]>("[[(bool,Tri,);2];3]"));
    v.push(Ty::of::<[[Tri;3];0]>("[[Tri;3];0]"));
    v.push(Ty::of::<[bool;0]>("[bool;0]"));
    v.push(Ty::of::<[bool;17]>("[bool;17]"));
    v.push(Ty::of::<[bool;24]>("[bool;24]"));
    v.push(Ty::of::<[bool;31]>("[bool;31]"));
    v.push(Ty::of::<[bool;9]>("[bool;9]"));
}
